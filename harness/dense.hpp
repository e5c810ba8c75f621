// independent dense linear algebra in long double, used as the oracle for the sparse code
#pragma once
#include "common.hpp"
namespace vf {
typedef long double ld;
struct Dense {
    int n; std::vector<ld> a;
    Dense(int n = 0) : n(n), a((size_t)n * n, 0) {}
    ld& operator()(int i, int j) { return a[(size_t)i * n + j]; }
    ld operator()(int i, int j) const { return a[(size_t)i * n + j]; }
};
inline std::vector<ld> mul(const Dense& A, const std::vector<ld>& x) {
    std::vector<ld> y(A.n, 0);
    for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) y[i] += A(i, j) * x[j];
    return y;
}
// Gaussian elimination with partial pivoting; returns false when a pivot vanishes
inline bool gauss(Dense A, std::vector<ld> b, std::vector<ld>& x) {
    int n = A.n;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++) if (fabsl(A(i, k)) > fabsl(A(p, k))) p = i;
        if (A(p, k) == 0) return false;
        if (p != k) { for (int j = 0; j < n; j++) std::swap(A(p, j), A(k, j)); std::swap(b[p], b[k]); }
        for (int i = k + 1; i < n; i++) {
            ld f = A(i, k) / A(k, k);
            if (f == 0) continue;
            for (int j = k; j < n; j++) A(i, j) -= f * A(k, j);
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0);
    for (int i = n - 1; i >= 0; i--) { ld s = b[i]; for (int j = i + 1; j < n; j++) s -= A(i, j) * x[j]; x[i] = s / A(i, i); }
    return true;
}
inline std::vector<ld> tol(const std::vector<double>& v) { return std::vector<ld>(v.begin(), v.end()); }
inline ld nrm(const std::vector<ld>& v) { ld s = 0; for (auto x : v) s += x * x; return sqrtl(s); }
}
