// C20: independent simulations may run at the same time.
// ThreadSanitizer watches every access of concurrently running scenarios; their results are compared with those of running them alone.
#include "scenario.hpp"
#include <atomic>
#include <thread>
using namespace nikfemm;
using namespace vf;
struct Barrier { std::atomic<int> n; explicit Barrier(int k) : n(k) {} void wait() { n--; while (n.load() > 0) std::this_thread::yield(); } };
struct Out { Rec r; std::string err; };
static void one(Out& o, uint64_t seed, double nt, int kind) { try { RunOpt p; p.nt = nt; p.kind = kind; o.r = run_scenario(seed, p); } catch (std::exception& e) { o.err = std::string("exception: ") + e.what(); } }
static void judge(Ctx& c, const std::vector<Out>& seq, const std::vector<Out>& par, const char* what) {
    for (size_t i = 0; i < seq.size(); i++) {
        if (seq[i].err != par[i].err) c.fail("concurrent-exception", "%s scenario %zu alone: '%s', with others: '%s'", what, i, seq[i].err.c_str(), par[i].err.c_str());
        std::string d = differs(seq[i].r, par[i].r); c.check(d.empty(), "concurrent-result", "%s scenario %zu (kind %d, %s): with others running the %s differs", what, i, seq[i].r.kind, seq[i].r.text.c_str(), d.c_str()); c.eval(seq[i].r.h.size()); c.note("results compared", seq[i].r.h.size()); c.nontrivial(seq[i].r.all());
    }
}
// the threads start together and do their scenarios, with random pauses between them
static void stress(Ctx& c, double nt, int per, int kind) {
#ifdef __SANITIZE_THREAD__
    nt = std::min(nt, 25.);   // the accesses matter, not their number
#endif
    int n = c.rng.range(2, 8); std::vector<std::vector<uint64_t>> seeds(n); std::vector<uint64_t> jitter; bool same = c.rng.chance(.3); for (int i = 0; i < n; i++) { jitter.push_back(c.rng.next()); for (int k = 0; k < per; k++) seeds[i].push_back(same && i ? seeds[0][k] : c.rng.next()); }
    std::vector<std::vector<Out>> seq(n, std::vector<Out>(per)), par = seq; bool first = c.rng.chance(.5);
    auto alone = [&] { for (int i = 0; i < n; i++) for (int k = 0; k < per; k++) one(seq[i][k], seeds[i][k], nt, kind); };
    if (!first) alone();
    Barrier b(n); std::vector<std::thread> T; std::atomic<int> in{0}, peak{0};
    for (int i = 0; i < n; i++) T.emplace_back([&, i] { Rng r(jitter[i]); b.wait(); for (int k = 0; k < per; k++) { if (r.chance(.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 2000))); int now = ++in, p = peak.load(); while (now > p && !peak.compare_exchange_weak(p, now)) {} one(par[i][k], seeds[i][k], nt, kind); in--; } });
    for (auto& t : T) t.join();
    if (first) alone();
    c.worst("scenarios running at once", peak.load()); c.note("threads", n); for (int i = 0; i < n; i++) judge(c, seq[i], par[i], same ? "the same" : "a different");
    c.sample("%d threads, %d scenarios each%s", n, per, same ? ", the same in all" : "");
}
VF_SUITE(mixed, 40, 900) { stress(c, 120, 2, -1); }
VF_SUITE(magnetostatic, 25, 600) { stress(c, 80, 1, 0); }
VF_SUITE(conduction, 30, 700) { stress(c, 150, 2, c.rng.range(1, 2)); }
VF_SUITE(parts, 40, 900) { stress(c, 100, 4, 3); }
// simulations handed over from one thread to another: built here, solved there, destroyed elsewhere
VF_SUITE(handover, 25, 500) {
#ifdef __SANITIZE_THREAD__
    const double nt = 15;
#else
    const double nt = 60;
#endif
    int n = c.rng.range(2, 6); std::vector<uint64_t> seeds; for (int i = 0; i < n; i++) seeds.push_back(c.rng.next()); std::vector<Out> seq(n), par(n); for (int i = 0; i < n; i++) one(seq[i], seeds[i], nt, c.idx % 2 ? 1 : 0);
    { std::vector<std::thread> T; for (int i = 0; i < n; i++) T.emplace_back([&, i] { one(par[i], seeds[i], nt, c.idx % 2 ? 1 : 0); }); for (auto& t : T) t.join(); }
    { std::vector<std::thread> T; std::vector<std::shared_ptr<void>> all; for (auto& o : par) for (auto& s : o.r.alive) all.push_back(s); for (auto& o : par) o.r.alive.clear();
      for (int i = 0; i < n; i++) T.emplace_back([&, i] { std::shared_ptr<void> s; if (i < (int)all.size()) s.swap(all[i]); s.reset(); Out again; one(again, seeds[i], nt, c.idx % 2 ? 1 : 0); if (!differs(again.r, seq[i].r).empty()) par[i].err = "another result after the handover"; }); for (auto& t : T) t.join(); }
    judge(c, seq, par, "a handed over"); c.sample("%d simulations handed over", n);
}
VF_MAIN
