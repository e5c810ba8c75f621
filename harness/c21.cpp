// C21: the reference the Python interface is compared with: a text of calls, made through the C++ interface.
#include <nikfemm.hpp>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
using namespace nikfemm;
static FILE* in; static FILE* out;
static double num() { char b[64]; if (fscanf(in, "%63s", b) != 1) exit(3); return strtod(b, nullptr); }
static long whole() { char b[64]; if (fscanf(in, "%63s", b) != 1) exit(3); return strtol(b, nullptr, 10); }
int main() {
    in = fdopen(dup(0), "r"); out = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) return 3;
    MultiLayerCurrentDensitySimulation* s = nullptr; System<double>* sys = nullptr; char op[8];
    while (fscanf(in, "%7s", op) == 1) {
        try {
            switch (op[0]) {
                case 'N': { long n = whole(); s = new MultiLayerCurrentDensitySimulation(n); for (long i = 0; i < n; i++) s->meshes[i].depth = num(); s->interconnections.clear(); break; }
                case 'R': { double a = num(), b = num(), c = num(), d = num(); s->meshes.at(whole()).drawing.drawRectangle(Vector(a, b), Vector(c, d)); break; }
                case 'P': { long l = whole(), n = whole(); std::vector<Vector> p; while (n--) { double a = num(), b = num(); p.push_back(Vector(a, b)); } s->meshes.at(l).drawing.drawPolygon(p); break; }
                case 'G': { double a = num(), b = num(), m = num(); s->meshes.at(whole()).drawing.drawRegion(Vector(a, b), {m}); break; }
                case 'I': { double a = num(), b = num(), c = num(), d = num(); uint64_t x = whole(), y = whole(); s->interconnections.push_back({Vector(a, b), Vector(c, d), x, y, num()}); break; }
                case 'M': { long k = whole(); bool r = true; double a = 0; int q = 0; if (k > 0) r = whole(); if (k > 1) a = num(); if (k > 2) q = (int)num(); System<double> t = k == 0 ? s->generateSystem() : k == 1 ? s->generateSystem(r) : k == 2 ? s->generateSystem(r, a) : s->generateSystem(r, a, q); delete sys; sys = new System<double>(t);
                    for (auto& m : s->meshes) { fprintf(out, "L %d %d\n", (int)m.data.numberofpoints, (int)m.data.numberoftriangles); for (int i = 0; i < (int)m.data.numberofpoints; i++) fprintf(out, "%a %a\n", m.data.pointlist[i].x, m.data.pointlist[i].y); for (int i = 0; i < (int)m.data.numberoftriangles; i++) fprintf(out, "%u %u %u\n", m.data.trianglelist[i][0], m.data.trianglelist[i][1], m.data.trianglelist[i][2]); } break; }
                case 'V': { double a = num(), b = num(), v = num(); s->setVoltage(*sys, Vector(a, b), v, whole()); break; }
                case 'S': { auto V = s->solve(*sys); auto P = s->computePowerDensity(V); fprintf(out, "S %zu %zu\n", V.size(), P.size()); for (double v : V) fprintf(out, "%a\n", v); for (double p : P) fprintf(out, "%a\n", p); break; }
            }
        } catch (std::exception& e) { fprintf(out, "E %s\n", op); fflush(out); _exit(0); }
    }
    fprintf(out, "F\n"); fflush(out); _exit(0);
}
