// C22: results do not depend on what ran before.
// Hashes of every observable result, compared across histories, repeated solving, copies, fresh processes and heap contents.
#include "scenario.hpp"
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace nikfemm;
using namespace vf;
static Judge judge_of(Ctx& c) { return [&c](bool ok, const char* k, const std::string& m) { c.check(ok, k, "%s", m.c_str()); }; }
static RunOpt opts(Rng& r, double nt) { RunOpt o; o.nt = nt; return o; }

// a process that has done nothing else: the same binary, started with VF_CHILD=<seed>:<size>
static std::string render(const Rec& R) { std::string s; for (auto& p : R.h) s += fmt("%s=%016llx\n", p.first.c_str(), (unsigned long long)p.second); return s; }
struct ChildMain { ChildMain() {
    const char* e = getenv("VF_CHILD"); if (!e) return; unsigned long long seed; double nt; if (sscanf(e, "%llu:%lf", &seed, &nt) != 2) return;
    int out = dup(1), n = ::open("/dev/null", O_WRONLY); dup2(n, 1); RunOpt o; o.nt = nt; std::string s; try { s = render(run_scenario(seed, o)); } catch (std::exception& x) { s = std::string("exception ") + x.what() + "\n"; } s += "end\n"; if (write(out, s.data(), s.size()) < 0) {} _exit(0);
} };
static ChildMain child_main;
static std::string child(uint64_t seed, double nt, int fill, int padding) {
    int p[2]; if (pipe(p)) return "no pipe"; pid_t k = fork();
    if (k == 0) {
        dup2(p[1], 1); ::close(p[0]); ::close(p[1]); setenv("VF_CHILD", fmt("%llu:%.17g", (unsigned long long)seed, nt).c_str(), 1); if (fill) setenv("MALLOC_PERTURB_", fmt("%d", fill).c_str(), 1); setenv("VF_PADDING", std::string(padding, 'x').c_str(), 1);
        char* a[] = {(char*)"c22", nullptr}; execv("/proc/self/exe", a); _exit(127);
    }
    ::close(p[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n); ::close(p[0]); int st; waitpid(k, &st, 0); if (s.size() < 4 || s.substr(s.size() - 4) != "end\n") return fmt("child ended with status %d", st); return s.substr(0, s.size() - 4);
}
static std::string first_diff(const std::string& a, const std::string& b) { size_t i = 0, l = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') l = i + 1; i++; } return a.substr(l, a.find_first_of("=\n", l) - l); }
// leave the free memory of this process full of a pattern
static void scribble(Rng& r) { std::vector<char*> v; int byte = r.pick(std::vector<int>{0x00, 0xff, 0xbe, 0x3f, 0x40}); for (int i = 0; i < 600; i++) { size_t n = (size_t)r.logu(16, i % 50 ? 5000 : 300000); char* p = (char*)malloc(n); memset(p, byte, n); v.push_back(p); } r.shuffle(v); for (char* p : v) free(p); }

VF_SUITE(history, 180, 2500) {   // the same scenario before and after others, some of them still alive
    uint64_t seed = c.rng.next(); double nt = c.thorough ? 800 : 250; Rec a = run_scenario(seed, opts(c.rng, nt)); std::vector<Rec> alive; int n = c.rng.range(1, 4); bool keep = c.rng.chance(.5);
    for (int i = 0; i < n; i++) { uint64_t s = c.rng.chance(.3) ? seed : c.rng.next(); if (c.rng.chance(.4)) s = s - s % 4 + seed % 4; Rec x = run_scenario(s, opts(c.rng, c.rng.logu(5, nt))); if (c.rng.chance(.5)) alive.push_back(std::move(x)); if (c.rng.chance(.5)) scribble(c.rng); }
    if (!keep) a.alive.clear();
    Rec b = run_scenario(seed, opts(c.rng, nt)); std::string d = differs(a, b); c.check(d.empty(), "history", "after %d other scenarios (%zu alive) the %s differs", n, alive.size(), d.c_str()); c.eval(a.h.size());
    c.note("results compared", a.h.size()); c.note(a.kind == 0 ? "magnetostatic" : a.kind == 1 ? "sheet" : a.kind == 2 ? "layered" : "parts"); c.sample("kind %d (%s), %zu results, %d other scenarios", a.kind, a.text.c_str(), a.h.size(), n); c.nontrivial(a.all());
}
VF_SUITE(again, 240, 3500) {   // solving, asking, copying and assembling again
    RunOpt o; o.resolve = o.copy = o.query = true; o.nt = c.thorough ? 800 : 300; o.kind = c.rng.range(0, 2); int k = 0; Judge j = [&](bool ok, const char* key, const std::string& m) { k++; c.check(ok, key, "%s", m.c_str()); };
    Rec a = run_scenario(c.rng.next(), o, j); c.note("repetitions compared", k); c.sample("kind %d (%s), %d comparisons", a.kind, a.text.c_str(), k); c.nontrivial(a.all());
}
VF_SUITE(process, 60, 700) {   // a process of its own, with other contents of the heap and another address layout
    uint64_t seed = c.rng.next(); double nt = 200; scribble(c.rng); std::string here = render(run_scenario(seed, opts(c.rng, nt)));
    for (int fill : {0, 0x01, 0xaa, 0xff}) { std::string s = child(seed, nt, fill, c.rng.range(0, 3000)); c.check(s == here, "process", "in a fresh process (heap filled with 0x%02x) the %s differs", fill, s.find('=') == std::string::npos ? s.c_str() : first_diff(here, s).c_str()); c.note("fresh processes"); }
    c.sample("kind %d, 4 processes", (int)(seed % 4)); c.nontrivial(hashstr(here.c_str()));
}
VF_SUITE(regenerate, 60, 800) {   // generating a magnetostatic system again: the bodies are where they were, whatever the boundary
    SceneOpt so; so.max_shapes = 3; so.tiling = false; Scene s = random_scene(c.rng, so); MagnetostaticSimulation sim; draw_scene(c.rng, sim.mesh.drawing, s, [&](int f) { return MagnetostaticProp{1. + s.faces[f].mat, {0, 0}, magnetostatic_materials::air, {}}; });
    double area = s.tri_area(c.rng.logu(20, 100)); int q = std::min(30, (int)(s.minang * .4)), times = c.rng.range(1, 3); double size = std::sqrt(s.total); struct Q { double a; Vector b; double i; }; std::vector<Q> first; Vector ctr = s.faces[0].marker + Vector(c.rng.uni(-1, 1), c.rng.uni(-1, 1)) * size;
    for (int t = 0; t <= times; t++) {
        sim.generateSystem(false, area, q);
        for (size_t i = 0; i < s.faces.size(); i++) { Vector p = s.faces[i].marker; Q v{sim.mesh.computeAreaIntegral(p), sim.mesh.computeBarycenter(p), sim.mesh.computeInertiaMoment(p, ctr, 1)}; if (t == 0) { first.push_back(v); continue; } Q& w = first[i]; double far = (w.b - ctr).norm() + size + (s.off.norm() * 1e-6);
            c.check(close(v.a, w.a, 1e-8, 1e-9 * s.total) && (v.b - w.b).norm() <= 1e-7 * far && close(v.i, w.i, 1e-6, 1e-8 * w.a * far * far), "regenerate", "after generating again body %zu has area %g (was %g), barycentre (%g,%g) (was (%g,%g)), inertia %g (was %g)", i, v.a, w.a, v.b.x, v.b.y, w.b.x, w.b.y, v.i, w.i); }
    }
    c.sample("%s generated %d times", s.text.c_str(), times + 1); c.nontrivial(scene_hash(s));
}
VF_MAIN
