// Shared driver support: PRNG, argument parsing, line protocol to the runner.
//   C <case>            case begins          (crash/hang attribution)
//   V <json>            oracle violation     {key,msg,case}
//   S <json>            summary at the end   {evals,cases,distinct[],counters{},samples[]}
// Every driver is:  driver --seed S --from A --to B [--tier quick|thorough] [--opt k=v]
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace h {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    double u() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }// inclusive
    bool p(double q) { return u() < q; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    double normal() {
        const double a = std::sqrt(-2.0 * std::log(1.0 - u()));
        return a * std::cos(6.283185307179586 * u());
    }
    Rng fork() { return Rng(next()); }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL + b); r.next(); return r.next(); }

inline std::string esc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}
template<class T> inline std::string str(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
template<class T> inline std::string vec(const T& v) {
    std::string o = "["; bool f = true;
    for (const auto& x : v) { if (!f) o += ", "; f = false; o += str(x); }
    return o + "]";
}
inline std::string v3(double a, double b, double c) { return "[" + str(a) + ", " + str(b) + ", " + str(c) + "]"; }

struct Args {
    uint64_t seed = 1;
    long from = 0, to = 1;
    bool thorough = false;
    std::string tmp = "/tmp";
    std::map<std::string, std::string> opt;
    std::string get(const std::string& k, const std::string& d = "") const { auto f = opt.find(k); return f == opt.end() ? d : f->second; }
    long num(const std::string& k, long d) const { auto f = opt.find(k); return f == opt.end() ? d : std::atol(f->second.c_str()); }
};

class Report {
public:
    long cur = -1;
    uint64_t evals = 0;
    uint64_t cases = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, double> counters;
    std::vector<std::string> samples;
    std::map<std::string, int> nviol;

    void begin(long c) { cur = c; ++cases; std::printf("C %ld\n", c); std::fflush(stdout); }
    void count(const std::string& k, double v = 1.0) { counters[k] += v; }
    void maxi(const std::string& k, double v) {
        const std::string kk = "max:" + k;
        auto it = counters.find(kk);
        if (it == counters.end()) counters[kk] = v; else if (v > it->second) it->second = v;
    }
    void nontrivial(uint64_t hash) { if (distinct.size() < 200000) distinct.insert(hash); }
    void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
    void viol(const std::string& key, const std::string& msg) {
        if (++nviol[key] > 3) return;
        std::printf("V {\"key\": %s, \"case\": %ld, \"msg\": %s}\n", esc(key).c_str(), cur, esc(msg).c_str());
        std::fflush(stdout);
    }
    // Oracle evaluation: counts, and reports if violated.
    template<class F> bool check(bool ok, const std::string& key, F&& msg) {
        ++evals;
        if (!ok) viol(key, msg());
        return ok;
    }
    void finish() {
        std::printf("S {\"evals\": %" PRIu64 ", \"cases\": %" PRIu64 ", \"distinct\": [", evals, cases);
        bool f = true;
        for (auto x : distinct) { std::printf("%s%" PRIu64, f ? "" : ",", x & 0xFFFFFFFFFFFFULL); f = false; }
        std::printf("], \"counters\": {");
        f = true;
        for (auto& [k, v] : counters) {
            if (!std::isfinite(v)) v = 1e300;
            std::printf("%s%s: %.17g", f ? "" : ", ", esc(k).c_str(), v); f = false;
        }
        std::printf("}, \"samples\": [");
        f = true;
        for (auto& s : samples) { std::printf("%s%s", f ? "" : ", ", esc(s).c_str()); f = false; }
        std::printf("]}\n");
        std::fflush(stdout);
    }
};

// The code under test seeds generators from std::random_device. Here the device is a function of the
// case, so that every case explores another seed and can be replayed.
inline unsigned& device() { static unsigned v = 0; return v; }

inline Args parse(int argc, char** argv) {
    Args a;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") a.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--from") a.from = std::atol(v.c_str());
        else if (k == "--to") a.to = std::atol(v.c_str());
        else if (k == "--tier") a.thorough = v == "thorough";
        else if (k == "--tmp") a.tmp = v;
        else if (k == "--opt") { auto e = v.find('='); a.opt[v.substr(0, e)] = e == std::string::npos ? "1" : v.substr(e + 1); }
    }
    return a;
}

// Runs `fn(case, rng, report)` for all cases of the shard.
template<class F> inline int run(int argc, char** argv, F&& fn) {
    Args a = parse(argc, argv);
    Report r;
    for (long c = a.from; c < a.to; ++c) {
        r.begin(c);
        device() = static_cast<unsigned>(mix(a.seed ^ 0x5DEECE66DULL, static_cast<uint64_t>(c)));
        Rng rng(mix(a.seed, static_cast<uint64_t>(c)));
        try { fn(a, c, rng, r); }
        catch (const std::exception& e) { r.viol("unexpected-exception", std::string("case raised: ") + e.what()); }
        catch (...) { r.viol("unexpected-exception", "case raised an unknown exception"); }
    }
    r.finish();
    return 0;
}

}// namespace h

#ifdef __GLIBCXX__
std::random_device::result_type std::random_device::_M_getval() { return h::device(); }
#endif
