// Shared pieces of the bounded (exhaustive-by-sampling, never counted as proved) stand-ins.
#pragma once
#include <algorithm>
#include <cassert>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>

struct Rng {
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(int p, int q = 100) { return below(q) < (uint64_t)p; }
    template <class T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// ---- current case, reported if anything (including a crash or a hang) goes wrong
static char case_buf[1 << 20];
static size_t case_len = 0;
static char out_path[4096];
static uint64_t n_cases = 0, n_nontrivial = 0;
static std::map<std::string, uint64_t> stats;
static void write_case(const char *why) {
    FILE *f = fopen(out_path, "w");
    if (!f) return;
    fprintf(f, "FAILED: %s\n", why);
    fwrite(case_buf, 1, case_len, f);
    fprintf(f, "\n");
    fclose(f);
}
static void on_signal(int sig) {
    char b[64];
    snprintf(b, sizeof b, sig == SIGALRM ? "the operation did not terminate (signal %d)" : "the operation crashed (signal %d)", sig);
    write_case(b);
    _exit(1);
}
[[noreturn]] static void fail(const std::string &why) {
    write_case(why.c_str());
    fprintf(stderr, "FAILED: %s\n", why.c_str());
    _exit(1);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
static void on_asan() { write_case("memory error reported by AddressSanitizer"); }
#endif
static void set_case(const std::string &s) {
    case_len = std::min(s.size(), sizeof(case_buf) - 1);
    memcpy(case_buf, s.data(), case_len);
    alarm(40);
}
static void add_case(const std::string &s) {
    size_t k = std::min(s.size(), sizeof(case_buf) - 1 - case_len);
    memcpy(case_buf + case_len, s.data(), k);
    case_len += k;
}
struct Run {
    Rng rng;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    double secs;
    Run(int argc, char **argv) {
        if (argc < 4) {
            fprintf(stderr, "usage: %s SEED SECONDS OUTFILE\n", argv[0]);
            exit(2);
        }
        rng.s = strtoull(argv[1], 0, 10) * 0x1234567 + 99;
        secs = atof(argv[2]);
        snprintf(out_path, sizeof out_path, "%s", argv[3]);
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
#if defined(__SANITIZE_ADDRESS__)
        signal(SIGSEGV, SIG_DFL);
        __asan_set_death_callback(on_asan);
#endif
    }
    bool more() {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs;
    }
    int done() {
        alarm(0);
        printf("{\"cases\": %llu, \"nontrivial\": %llu", (unsigned long long)n_cases, (unsigned long long)n_nontrivial);
        for (auto &k : stats) printf(", \"%s\": %llu", k.first.c_str(), (unsigned long long)k.second);
        std::string smp(case_buf, std::min<size_t>(case_len, 400));
        for (auto &c : smp)
            if (c == '"' || c == '\\' || (unsigned char)c < 32) c = ' ';
        printf(", \"sample\": \"%s\"}\n", smp.c_str());
        fflush(stdout);
        _exit(0);
    }
};
template <class F>
static bool throws(F f) {
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

// ---- graphs
struct Ed {
    int u, v;          // v == -1: boundary
    int64_t w;
    std::vector<size_t> obs;
};
struct Gr {
    int n = 0;
    size_t nobs = 0;                // number of observables
    std::vector<size_t> pos;        // the (at most 3) observables that occur
    std::vector<Ed> es;
    std::string str() const {
        std::stringstream s;
        s << "graph nodes=" << n << " observables=" << nobs << "\n";
        for (auto &e : es) {
            s << "  edge " << e.u << " " << e.v << " weight " << e.w << " obs";
            for (auto o : e.obs) s << " " << o;
            s << "\n";
        }
        return s.str();
    }
    int comp_mask(const std::vector<size_t> &o) const {   // parity vector over `pos`
        int m = 0;
        for (auto x : o)
            for (size_t k = 0; k < pos.size(); k++)
                if (pos[k] == x) m ^= 1 << k;
        return m;
    }
    // compress a 64-bit mask; -1 if it has a bit outside `pos`
    int comp64(uint64_t x) const {
        int m = 0;
        for (size_t k = 0; k < pos.size(); k++)
            if (pos[k] < 64 && (x >> pos[k] & 1)) {
                m |= 1 << k;
                x &= ~(1ull << pos[k]);
            }
        return x ? -1 : m;
    }
};
static const int64_t INF = (int64_t)1 << 60;

struct Oracle {
    int n, M;
    std::vector<int64_t> d;   // d[(u*(n+1)+v)*M + mask], v==n: boundary
    int64_t &at(int u, int v, int m) { return d[(size_t)(u * (n + 1) + v) * M + m]; }
    std::vector<int64_t> dist;
    int64_t D(int u, int v) const { return dist[(size_t)u * (n + 1) + (v < 0 ? n : v)]; }
    bool tight(int u, int v, int m) const {
        if (m < 0) return false;
        int64_t x = d[(size_t)(u * (n + 1) + (v < 0 ? n : v)) * M + m];
        return x < INF && x == D(u, v);
    }
    explicit Oracle(const Gr &g) {   // absolute weights
        n = g.n;
        M = 1 << g.pos.size();
        d.assign((size_t)n * (n + 1) * M, INF);
        dist.assign((size_t)n * (n + 1), INF);
        std::vector<std::vector<std::array<int64_t, 3>>> adj(n);
        for (auto &e : g.es) {
            int m = g.comp_mask(e.obs);
            int64_t w = std::abs(e.w);
            adj[e.u].push_back({e.v, w, m});
            if (e.v >= 0 && e.v != e.u) adj[e.v].push_back({e.u, w, m});
        }
        for (int s = 0; s < n; s++) {
            std::set<std::pair<int64_t, int>> pq;
            at(s, s, 0) = 0;
            pq.insert({0, s * M});
            while (!pq.empty()) {
                auto [c, k] = *pq.begin();
                pq.erase(pq.begin());
                int u = k / M, m = k % M;
                for (auto &a : adj[u]) {
                    int v = a[0] < 0 ? n : (int)a[0], m2 = m ^ (int)a[2];
                    int64_t nc = c + a[1];
                    if (nc < at(s, v, m2)) {
                        if (v < n) pq.erase({at(s, v, m2), v * M + m2});
                        at(s, v, m2) = nc;
                        if (v < n) pq.insert({nc, v * M + m2});
                    }
                }
            }
            for (int v = 0; v <= n; v++)
                for (int m = 0; m < M; m++)
                    dist[(size_t)s * (n + 1) + v] = std::min(dist[(size_t)s * (n + 1) + v], at(s, v, m));
        }
    }
    // minimum weight of a perfect matching of `ev` and the set (bitset over masks) of parities achieving it
    std::pair<int64_t, unsigned> match(const std::vector<int> &ev) const {
        int k = ev.size();
        std::vector<int64_t> best((size_t)1 << k, INF);
        std::vector<unsigned> ms((size_t)1 << k, 0);
        best[0] = 0;
        ms[0] = 1;
        auto merge = [&](int S, int P, int u, int v) {
            if (best[P] >= INF || D(u, v) >= INF) return;
            int64_t c = best[P] + D(u, v);
            if (c > best[S]) return;
            unsigned r = 0;
            for (int a = 0; a < M; a++)
                if (ms[P] >> a & 1)
                    for (int b = 0; b < M; b++)
                        if (tight(u, v, b)) r |= 1u << (a ^ b);
            if (c < best[S]) {
                best[S] = c;
                ms[S] = r;
            } else
                ms[S] |= r;
        };
        for (int S = 1; S < (1 << k); S++) {
            int i = __builtin_ctz(S);
            merge(S, S ^ (1 << i), ev[i], -1);
            for (int j = i + 1; j < k; j++)
                if (S >> j & 1) merge(S, S ^ (1 << i) ^ (1 << j), ev[i], ev[j]);
        }
        return {best[(1 << k) - 1], ms[(1 << k) - 1]};
    }
};

// ---- graph generation
static int64_t gen_weight(Rng &r, int kind) {
    switch (kind) {
        case 0: return 2 * r.range(0, 1);
        case 1: return 2 * r.range(1, 4);
        case 2: return 2 * r.range(0, 20);
        case 3: return 2 * r.range(1, 500);
        case 4: return 2;
        case 5: return 2 * r.range(0, (1 << 24) - 1);
        case 6: return r.chance(50) ? 2 * r.range(0, 3) : 2 * r.range((1 << 24) - 3, (1 << 24) - 1);
        default: return r.chance(30) ? 0 : 2 * r.range(1, 6);
    }
}
static Gr gen_graph(Rng &r, int maxn, bool many_obs = false) {
    Gr g;
    g.n = r.range(1, maxn);
    int shape = r.below(10), wk = r.below(8);
    if (shape == 0 && maxn >= 9) g.n = std::min(maxn, 9);
    g.nobs = many_obs ? r.pick<size_t>({65, 66, 100, 128, 130}) : r.pick<size_t>({0, 1, 2, 3, 33, 40, 64, 64});
    size_t L = std::min<size_t>(g.nobs, r.range(1, 3));
    std::set<size_t> ps;
    while (ps.size() < L) ps.insert(r.chance(40) ? g.nobs - 1 - r.below(std::min<size_t>(g.nobs, 3)) : r.below(g.nobs));
    g.pos.assign(ps.begin(), ps.end());
    std::set<std::pair<int, int>> have;
    auto add = [&](int u, int v) {
        if (u == v && v >= 0) return;
        auto k = v < 0 ? std::make_pair(u, -1) : std::make_pair(std::min(u, v), std::max(u, v));
        if (!have.insert(k).second) return;
        Ed e{u, v, gen_weight(r, wk), {}};
        for (auto p : g.pos)
            if (r.chance(35)) e.obs.push_back(p);
        if (!e.obs.empty() && r.chance(8)) e.obs.push_back(e.obs[0]);   // repeated observable cancels
        if (r.chance(50)) std::reverse(e.obs.begin(), e.obs.end());
        if (v >= 0 && r.chance(50)) std::swap(e.u, e.v);
        g.es.push_back(e);
    };
    int n = g.n;
    if (shape == 0) {   // grid
        int wdt = 3;
        for (int i = 0; i < n; i++) {
            if (i % wdt + 1 < wdt && i + 1 < n) add(i, i + 1);
            if (i + wdt < n) add(i, i + wdt);
        }
    } else if (shape == 1) {
        for (int i = 0; i + 1 < n; i++) add(i, i + 1);
    } else if (shape == 2) {
        for (int i = 0; i < n; i++) add(i, (i + 1) % n);
    } else if (shape <= 4) {
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++) add(i, j);
    } else if (shape == 5) {
        for (int i = 1; i < n; i++) add(i, r.below(i));
    } else if (shape == 6) {
        for (int i = 1; i < n; i++) add(0, i);
        for (int i = 1; i < n; i++)
            if (r.chance(30)) add(i, 1 + r.below(n - 1));
    } else {
        int p = r.pick({15, 30, 50, 70});
        for (int i = 1; i < n; i++)
            if (r.chance(85)) add(i, r.below(i));
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++)
                if (r.chance(p)) add(i, j);
    }
    int bp = r.pick({0, 0, 15, 40, 100});
    for (int i = 0; i < n; i++)
        if (r.chance(bp)) add(i, -1);
    for (size_t i = g.es.size(); i > 1; i--) std::swap(g.es[i - 1], g.es[r.below(i)]);
    return g;
}
