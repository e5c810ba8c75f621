// Reference assembly of the magnetostatic system in long double.
#pragma once
#include "femref.hpp"
#include "shell.hpp"
namespace vf {
using nikfemm::MagnetostaticProp;
struct MagRef { SymRef K; std::vector<ld> b, bmag; };
// mu[t]: permeability per triangle; prop(t): drawn material of triangle t (nullptr: exterior)
template <class MD, class P> MagRef mag_ref(const MD& m, const std::vector<double>& mu, P prop) {
    MagRef R; R.K = stiffness_ref(m, [&](int t) -> ld { return 1 / (ld)mu[t]; }); R.b.assign(m.numberofpoints, 0); R.bmag = R.b;
    for (int t = 0; t < m.numberoftriangles; t++) {
        const MagnetostaticProp* p = prop(t); if (!p) continue; auto& v = m.trianglelist[t].verts; ld A2 = tri2(m, t), sg = A2 > 0 ? 1 : -1; A2 = fabsl(A2);
        for (int k = 0; k < 3; k++) {
            nikfemm::Vector q = m.pointlist[v[(k + 1) % 3]], r = m.pointlist[v[(k + 2) % 3]]; ld gx = sg * ((ld)q.y - r.y) / A2, gy = sg * ((ld)r.x - q.x) / A2;   // gradient of the hat function
            ld s = A2 * p->J / 6, e = A2 / 2 * (p->M.x * gy - p->M.y * gx); R.b[v[k]] += s + e; R.bmag[v[k]] += fabsl(s) + A2 / 2 * (fabsl(p->M.x * gy) + fabsl(p->M.y * gx));
        }
    }
    return R;
}
}
