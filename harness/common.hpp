// Shared machinery of the monitors: case scheduling, verdict events, a reproducible PRNG.
// A harness defines suites (VF_SUITE); the runner asks for the list, shards the case indexes over
// processes, and reads the event file.  Every case is a pure function of (seed, suite, index, tier).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <functional>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include <typeinfo>
#include <numeric>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>

namespace vf {
struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { for (auto& v : s) v = sm(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    double u() { return (next() >> 11) * 0x1.0p-53; }                  // [0,1)
    double uni(double a, double b) { return a + (b - a) * u(); }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); }  // inclusive
    bool chance(double p) { return u() < p; }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    double sgn() { return chance(0.5) ? 1.0 : -1.0; }
    double normal() { double a = u(), b = u(); return std::sqrt(-2 * std::log(1 - a)) * std::cos(6.283185307179586 * b); }
    template <class C> auto pick(C&& c) { return c[next() % c.size()]; }
    template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]); }
    // a double with an interesting magnitude / bit pattern, always finite
    double weird() {
        switch (range(0, 9)) {
            case 0: return 0.0; case 1: return -0.0; case 2: return (double)range(-5, 5); case 3: return sgn() * logu(1e-300, 1e-250);
            case 4: return sgn() * logu(1e100, 1e150); case 5: return sgn() * logu(1e-12, 1e12); case 6: return sgn() * 0x1.0p-1074;
            default: return uni(-10, 10);
        }
    }
};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); uint64_t x = h; return Rng::sm(x); }
inline uint64_t mixd(uint64_t h, double d) { uint64_t v; memcpy(&v, &d, 8); return mix(h, v); }
inline uint64_t hashstr(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }

struct CaseAbort {};   // a violation was reported, the rest of this case is meaningless
struct CaseSkip {};    // the generated case is outside the property's domain

inline int out_fd = -1;
inline std::string jesc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
inline void emit(const std::string& line) { std::string l = line + "\n"; ssize_t r = ::write(out_fd, l.data(), l.size()); (void)r; }
inline std::string vfmt(const char* f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(nullptr, 0, f, b); va_end(b); std::string s(n, 0); vsnprintf(s.data(), n + 1, f, ap); return s; }
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }

struct Ctx {
    const char* suite; uint64_t seed; long idx; bool thorough; Rng rng;
    uint64_t sig = 0; bool nontriv = false; long evals = 0; int nviol = 0;
    static inline std::map<std::string, long> counters;
    static inline std::map<std::string, double> maxima;
    std::string desc;
    Ctx(const char* su, uint64_t se, long i, bool th) : suite(su), seed(se), idx(i), thorough(th), rng(mix(mix(se * 0x9E3779B97F4A7C15ull + 1, hashstr(su)), (uint64_t)i)) {}
    void note(const char* k, long n = 1) { counters[k] += n; }
    void worst(const char* k, double v) { auto it = maxima.find(k); if (it == maxima.end() || v > it->second) maxima[k] = v; }
    // an observation that the property's monitor compared against its oracle
    void eval(long n = 1) { evals += n; }
    void nontrivial(uint64_t s) { nontriv = true; sig = mix(sig, s); }
    void sample(const char* f, ...) { va_list ap; va_start(ap, f); desc = vfmt(f, ap); va_end(ap); }
    // report a violation under a stable key and stop this case
    [[noreturn]] void fail(const char* key, const char* f, ...) {
        va_list ap; va_start(ap, f); report(key, vfmt(f, ap)); va_end(ap); throw CaseAbort();
    }
    void failsoft(const char* key, const char* f, ...) { va_list ap; va_start(ap, f); report(key, vfmt(f, ap)); va_end(ap); }
    void report(const std::string& key, const std::string& msg) {
        if (nviol++ > 3) return;
        emit(fmt("V {\"suite\":\"%s\",\"idx\":%ld,\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}", suite, idx, jesc(key).c_str(), jesc(msg).c_str(), jesc(desc).c_str()));
    }
    // monitored assertion: counts as one evaluation
    void check(bool ok, const char* key, const char* f, ...) {
        evals++;
        if (ok) return;
        va_list ap; va_start(ap, f); report(key, vfmt(f, ap)); va_end(ap); throw CaseAbort();
    }
    [[noreturn]] void skip() { throw CaseSkip(); }
};

struct Suite { const char* name; long quick, thorough; std::function<void(Ctx&)> fn; };
inline std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
struct Reg { Reg(const char* n, long q, long t, std::function<void(Ctx&)> f) { suites().push_back({n, q, t, f}); } };
#define VF_SUITE(name, quick, thorough) static void vf_##name(vf::Ctx& c); static vf::Reg vfr_##name(#name, quick, thorough, vf_##name); static void vf_##name(vf::Ctx& c)

// runs f, returns "" or the message of the std::exception it threw
template <class F> std::string caught(F&& f) {
    try { f(); } catch (CaseAbort&) { throw; } catch (CaseSkip&) { throw; } catch (std::exception& e) { return std::string(e.what()).empty() ? "(exception)" : e.what(); }
    return "";
}
template <class F> bool throws_std(F&& f) { return !caught(f).empty(); }

inline bool close(double a, double b, double rtol, double atol) { return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b)); }

inline int run_main(int argc, char** argv) {
    std::string suite, out; long from = 0, to = 0; uint64_t seed = 1; bool thorough = false, list = false, verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--list") list = true; else if (a == "--suite") suite = nx(); else if (a == "--from") from = atol(nx().c_str()); else if (a == "--to") to = atol(nx().c_str());
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--thorough") thorough = true; else if (a == "--out") out = nx(); else if (a == "--verbose") verbose = true;
    }
    if (list) { for (auto& s : suites()) printf("%s %ld %ld\n", s.name, s.quick, s.thorough); return 0; }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    { rlimit r{(rlim_t)3500 << 20, (rlim_t)3500 << 20}; setrlimit(RLIMIT_AS, &r); }   // a runaway allocation fails instead of exhausting the machine
#endif
    { rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r); }
    out_fd = out.empty() ? dup(1) : ::open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (!verbose) { int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); ::close(n); }
    for (auto& s : suites()) {
        if (suite != s.name) continue;
        for (long i = from; i < to; i++) {
            emit(fmt("B %ld", i));
            Ctx c(s.name, seed, i, thorough);
            const char* st = "ok";
            try { s.fn(c); }
            catch (CaseAbort&) { st = "viol"; }
            catch (CaseSkip&) { st = "skip"; }
            catch (std::exception& e) { std::string w = e.what(); std::string k = w.substr(0, 60); c.report(std::string("exception: ") + k, std::string(typeid(e).name()) + ": " + w); st = "viol"; }
            emit(fmt("C %ld %016llx %d %ld %s", i, (unsigned long long)c.sig, (int)c.nontriv, c.evals, st));
            if (!c.desc.empty() && (i < 2 || verbose)) emit(fmt("S {\"suite\":\"%s\",\"idx\":%ld,\"case\":\"%s\"}", s.name, i, jesc(c.desc).c_str()));
        }
    }
    for (auto& [k, v] : Ctx::counters) emit(fmt("N {\"k\":\"%s\",\"v\":%ld}", jesc(k).c_str(), v));
    for (auto& [k, v] : Ctx::maxima) emit(fmt("M {\"k\":\"%s\",\"v\":%.6g}", jesc(k).c_str(), std::isfinite(v) ? v : 1e308));
    emit("F");
    return 0;
}
}  // namespace vf
#define VF_MAIN int main(int argc, char** argv) { return vf::run_main(argc, argv); }
