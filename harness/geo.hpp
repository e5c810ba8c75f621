// exact integer geometry used as the oracle, and generators of simple polygons
#pragma once
#include "common.hpp"
namespace vf {
typedef int64_t i64; typedef __int128 i128;
struct IP { i64 x, y; bool operator==(const IP& o) const { return x == o.x && y == o.y; } bool operator<(const IP& o) const { return x != o.x ? x < o.x : y < o.y; } };
inline int orient(IP a, IP b, IP c) { i128 v = (i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x); return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline bool onseg(IP a, IP b, IP p) { return orient(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
inline bool seg_touch(IP a, IP b, IP c, IP d) {   // closed segments share a point
    int o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
    if (o1 * o2 < 0 && o3 * o4 < 0) return true;
    return onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b);
}
inline bool seg_proper(IP a, IP b, IP c, IP d) { return orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0; }
// 1 inside, 0 on the boundary, -1 outside (winding number, exact)
inline int locate(const std::vector<IP>& P, IP p) {
    int w = 0; size_t n = P.size();
    for (size_t i = 0; i < n; i++) { IP a = P[i], b = P[(i + 1) % n]; if (onseg(a, b, p)) return 0;
        if (a.y <= p.y) { if (b.y > p.y && orient(a, b, p) > 0) w++; } else if (b.y <= p.y && orient(a, b, p) < 0) w--; }
    return w ? 1 : -1;
}
inline bool simple(const std::vector<IP>& P) {
    size_t n = P.size(); if (n < 3) return false;
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) {
        IP a = P[i], b = P[(i + 1) % n], c = P[j], d = P[(j + 1) % n];
        if (j == i + 1 || (i == 0 && j == n - 1)) { // adjacent: share exactly one point, do not fold back
            IP s = j == i + 1 ? b : a, o1 = j == i + 1 ? a : b, o2 = j == i + 1 ? d : c; if (a == b || c == d) return false;
            if (n == 3 ? orient(P[0], P[1], P[2]) == 0 : (onseg(s, o1, o2) || onseg(s, o2, o1))) return false;
        } else if (seg_touch(a, b, c, d)) return false;
    }
    return true;
}
inline i128 area2(const std::vector<IP>& P) { i128 s = 0; for (size_t i = 0; i < P.size(); i++) { IP a = P[i], b = P[(i + 1) % P.size()]; s += (i128)a.x * b.y - (i128)a.y * b.x; } return s; }
inline std::vector<IP> random_simple(Rng& r, int n, i64 R) {
    for (;;) {
        std::vector<IP> P; int kind = r.range(0, 3);
        if (kind == 0) {              // star-shaped
            std::vector<double> a(n); for (auto& v : a) v = r.uni(0, 6.283185307); std::sort(a.begin(), a.end());
            for (double t : a) { double q = r.uni(0.15, 1) * R; P.push_back({(i64)std::llround(q * cos(t)), (i64)std::llround(q * sin(t))}); }
        } else if (kind == 1) {       // histogram / comb: many axis-parallel and collinear edges
            int k = std::max(1, n / 2); i64 x = -R; P.push_back({x, -R});
            std::vector<IP> top; for (int i = 0; i < k; i++) { i64 h = r.range(-R + 1, R), w = r.range(1, std::max<i64>(1, 2 * R / k)); top.push_back({x, h}); x += w; top.push_back({x, h}); }
            P.push_back({x, -R}); std::reverse(top.begin(), top.end()); for (auto& t : top) if (!(t == P.back())) P.push_back(t);
        } else {                      // random points, untangled
            i64 q = kind == 2 ? R : std::max<i64>(2, n / 2);   // a coarse grid gives many aligned vertices
            std::set<IP> s; for (int t = 0; t < 200 && (int)s.size() < n; t++) s.insert({r.range(-q, q), r.range(-q, q)});
            P.assign(s.begin(), s.end()); r.shuffle(P);
            for (int it = 0; it < 400; it++) { bool ch = false; size_t m = P.size();
                for (size_t i = 0; i < m && !ch; i++) for (size_t j = i + 2; j < m; j++) { if (i == 0 && j == m - 1) continue; if (seg_touch(P[i], P[i + 1], P[j], P[(j + 1) % m])) { std::reverse(P.begin() + i + 1, P.begin() + j + 1); ch = true; break; } }
                if (!ch) break; }
        }
        std::vector<IP> Q; for (auto& p : P) if (Q.empty() || !(Q.back() == p)) Q.push_back(p);
        while (Q.size() > 1 && Q.front() == Q.back()) Q.pop_back();
        if (!simple(Q)) { n = std::max(3, n - (r.chance(0.2) ? 1 : 0)); continue; }
        if (r.chance(0.5)) std::reverse(Q.begin(), Q.end());
        std::rotate(Q.begin(), Q.begin() + r.range(0, Q.size() - 1), Q.end());
        return Q;
    }
}
}
