// Harness core: deterministic generator, verdict recording, coverage counters.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace sm {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uf(double a, double b) { return a + (b - a) * u(); }
    // Inclusive bounds
    int ri(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }
    bool ch(double p) { return u() < p; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    double gauss() {
        double a = u() + 1e-300, b = u();
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

struct Viol { std::string key, msg; long c; };

struct Ctx {
    std::string prop, tier = "quick", variant;
    uint64_t seed = 1;
    long case_idx = 0;
    long viol_total = 0;
    long viol_case = 0;
    std::vector<Viol> viols;
    std::map<std::string, long> cnt;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::string context;       // what the current case is doing (for messages)
    uint64_t trace = 0;        // running digest of the current case
    void viol(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
        viol_total++; viol_case++;
        if (viol_case > 3 || viols.size() > 40) return;
        char buf[3000];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        viols.push_back({key, (context.empty() ? "" : "[" + context + "] ") + buf, case_idx});
    }
    void count(const std::string& k, long n = 1) { cnt[k] += n; }
    void nontrivial(uint64_t h) { if (distinct.size() < 60000) distinct.insert(h); }
    void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (samples.size() >= 6) return;
        char buf[1500];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        samples.push_back("case " + std::to_string(case_idx) + ": " + buf);
    }
    Rng rng(const char* what = "") {
        return Rng(mix(mix(hash_str(prop + "/" + what), seed), static_cast<uint64_t>(case_idx)));
    }
};
extern Ctx G;

struct PropDef {
    const char* id;
    const char* rule;
    std::function<void()> run_case;   // runs G.case_idx
    long quick_cases, thorough_cases;
};
std::vector<PropDef>& props();
struct Reg { explicit Reg(PropDef p) { props().push_back(std::move(p)); } };

}  // namespace sm
