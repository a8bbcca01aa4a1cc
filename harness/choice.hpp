// Choice-sequence source: every random decision of a case is a bounded integer drawn here,
// so a case is replayed (and shrunk) as a plain list of integers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <sstream>
#include <functional>
#include <cstdio>
#include <algorithm>
namespace hv {

struct Rng {                       // splitmix64: a pure function of the seed
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x632BE59BD9B4E019ull));
    r.next();
    return r.next();
}

struct Src {
    std::vector<uint64_t> rec;      // what was drawn
    std::vector<uint64_t> pre;      // what to replay first
    size_t pos = 0;
    bool replay = false;
    Rng rng;
    FILE* trace = nullptr;          // flushed after every draw, for cases that crash
    explicit Src(uint64_t seed) : rng(seed) {}
    explicit Src(const std::vector<uint64_t>& p) : pre(p), replay(true), rng(0) {}
    uint64_t draw(uint64_t n) {     // uniform in [0, n)
        uint64_t x;
        if (n == 0) n = 1;          // nothing to choose from: the caller must not use it as an index
        if (replay) x = pos < pre.size() ? pre[pos++] % n : 0;
        else x = rng.next() % n;
        rec.push_back(x);
        if (trace) { fprintf(trace, "%llu,", (unsigned long long)x); fflush(trace); }
        return x;
    }
    long range(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // 0 -> false
    double unit() { return (double)draw(1u << 30) / (double)(1u << 30); }          // [0,1)
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
};

// Shrinks a failing choice sequence; `fails` re-runs one candidate.
inline std::vector<uint64_t> shrink(std::vector<uint64_t> best,
                                    const std::function<bool(const std::vector<uint64_t>&)>& fails,
                                    int budget)
{
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (budget <= 0) return false;
        --budget;
        if (fails(c)) { best = c; return true; }
        return false;
    };
    bool progress = true;
    while (progress && budget > 0) {
        progress = false;
        while (!best.empty() && best.back() == 0) best.pop_back();
        for (size_t len : {32, 16, 8, 4, 2, 1}) {                       // delete chunks
            for (size_t i = best.size(); i-- > 0 && budget > 0;) {
                if (i + len > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true;
            }
        }
        for (size_t len : {16, 4, 1}) {                                 // zero chunks
            for (size_t i = 0; i < best.size() && budget > 0; i += len) {
                auto c = best;
                bool ch = false;
                for (size_t j = i; j < std::min(i + len, c.size()); ++j) { ch |= c[j] != 0; c[j] = 0; }
                if (ch && attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size() && budget > 0; ++i) {        // lower single values
            while (i < best.size() && best[i] > 1 && budget > 0) {
                auto c = best;
                c[i] /= 2;
                if (!attempt(c)) break;
                progress = true;
            }
            if (i < best.size() && best[i] > 0) {
                auto c = best;
                c[i] -= 1;
                if (attempt(c)) progress = true;
            }
        }
    }
    return best;
}

inline std::string join(const std::vector<uint64_t>& v) {
    std::ostringstream o;
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
    return o.str();
}
inline std::vector<uint64_t> split(const std::string& s) {
    std::vector<uint64_t> v;
    std::istringstream i(s);
    std::string t;
    while (std::getline(i, t, ',')) if (!t.empty()) v.push_back(std::stoull(t));
    return v;
}
} // namespace hv
