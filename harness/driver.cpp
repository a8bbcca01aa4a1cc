// Runs generated programs against oracles. One case = (program, choice sequence).
#include "choice.hpp"
#include "ref.hpp"
#include "api.hpp"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <thread>
#include <chrono>
#include <atomic>

namespace hv {
std::map<std::string, Factory>& registry_impl() { static std::map<std::string, Factory> r; return r; }

template <class... A> [[noreturn]] void fail(const char* f, A... a) {
    char buf[1200];
    if constexpr (sizeof...(A) == 0) snprintf(buf, sizeof buf, "%s", f); else snprintf(buf, sizeof buf, f, a...);
    throw Fail(buf);
}

// ------------------------------------------------------------------ programs
struct DimM { long lo, hi, of; };
struct VarM { int shape; int r, c; std::string dom, role; int n = 0; };
struct ProgM {
    std::string id;
    std::vector<DimM> dims;
    std::vector<VarM> vars, consts, banks, vbanks;
    std::vector<char> refresh;
    std::vector<int> idx;
    std::map<std::string, std::string> flags;
    Sx ast;
    std::set<int> eqv, opv, eqb, opb;            // assigned variables / banks
    bool has(const char* f) const { auto i = flags.find(f); return i != flags.end() && i->second != "0" && i->second != "False"; }
    std::set<size_t> zero;                       // dimensions that may be 0
    bool may_be_zero(size_t k) const { return zero.count(k); }
    std::string flag(const char* f) const { auto i = flags.find(f); return i == flags.end() ? "" : i->second; }
};
static void scan(ProgM& P, const Sx& e) {
    if (!e.list) return;
    if (e.op() == "eq") (e.k[1].op() == "it" ? P.eqb : P.eqv).insert((int)e.k[1].num(1));
    if (e.op() == "op") (e.k[2].op() == "it" ? P.opb : P.opv).insert((int)e.k[2].num(1));
    for (auto& x : e.k) scan(P, x);
}
static ProgM load(const std::string& line) {
    const char* p = line.c_str();
    Sx s = parse_sx(p);
    ProgM P;
    P.id = s.str(1);
    auto sec = [&](size_t i) -> std::vector<Sx> { return std::vector<Sx>(s.k[i].k.begin() + 1, s.k[i].k.end()); };
    for (auto& d : sec(2)) P.dims.push_back({d.num(0), d.num(1), d.num(2)});
    for (auto& v : sec(3)) P.vars.push_back({(int)v.num(0), (int)v.num(1), (int)v.num(2), v.str(3), v.str(4)});
    for (auto& v : sec(4)) P.idx.push_back((int)v.num(0));
    for (auto& v : sec(5)) { P.consts.push_back({(int)v.num(0), (int)v.num(1), (int)v.num(2), v.str(3), ""}); P.refresh.push_back(v.num(4) != 0); }
    for (auto& v : sec(6)) P.banks.push_back({(int)v.num(0), (int)v.num(1), (int)v.num(2), v.str(3), v.str(4), (int)v.num(5)});
    for (auto& v : sec(7)) P.vbanks.push_back({0, 0, 0, v.str(0), "", (int)v.num(1)});
    for (auto& v : sec(8)) P.flags[v.str(0)] = v.str(1);
    for (auto x : hv::split(P.flag("zero"))) P.zero.insert((size_t)x);
    P.ast = s.k[9];
    scan(P, P.ast);
    return P;
}

// ------------------------------------------------------------------ inputs
static double uni(Src& s, double lo, double hi) { return lo + (hi - lo) * s.unit(); }
static double draw_val(Src& s, const std::string& dom) {
    if (dom.back() == '?') return s.draw(20) == 19 ? std::numeric_limits<double>::quiet_NaN() : draw_val(s, dom.substr(0, dom.size() - 1));
    if (dom == "real") {
        switch (s.draw(8)) {
            case 0: { static const double t[] = {1, 2, -1, 3, -2, 0}; return t[s.draw(6)]; }
            case 1: return (double)s.range(-24, 24) / 8;
            default: return uni(s, -3, 3);
        }
    }
    if (dom == "zreal") {                  // zero-heavy
        switch (s.draw(4)) { case 0: return 0; case 1: return (double)s.range(-3, 3); default: return uni(s, -2, 2); }
    }
    if (dom == "int") return (double)s.range(-3, 3);
    if (dom == "pos") return s.draw(4) == 0 ? (double)s.range(1, 12) / 4 : uni(s, 0.3, 3);
    if (dom == "unit") return s.draw(4) == 0 ? (double)s.range(1, 7) / 8 : uni(s, 0.05, 0.95);
    if (dom == "ulim") return s.draw(4) == 0 ? (double)s.range(-7, 7) / 8 : uni(s, -0.9, 0.9);
    if (dom == "nz") { double x = s.draw(3) == 0 ? (double)s.range(1, 12) / 4 : uni(s, 0.3, 3); return s.draw(2) ? -x : x; }
    if (dom == "nanint") {                 // operands of comparisons: ties, near ties, NaN, infinities
        switch (s.draw(8)) {
            case 0: { double x = (double)s.range(-3, 3); return std::nextafter(x, s.draw(2) ? 10 : -10); }
            case 1: { static const double t[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -0.0}; return t[s.draw(4)]; }
            default: return (double)s.range(-3, 3);
        }
    }
    if (dom == "bit") return (double)s.draw(2);
    if (dom == "logic") { static const double t[] = {0, 1, 2, -1, 0.5}; return t[s.draw(5)]; }
    if (dom == "ext") {                    // extreme arguments of bounded functions
        static const double t[] = {1, 0, -1, 40, -40, 700, -700, 745, -745, 800, -800, 1e5, -1e5, 1e-9, -1e-9, 30, -30, 1e-300, 1e100, -1e120, 1e200, -1e200, 1e10, -1e20};
        return s.draw(3) == 0 ? uni(s, -60, 60) : t[s.draw(24)];
    }
    if (dom == "extpos") { static const double t[] = {1, 1e-12, 1e12, 0.5, 1e-200, 1e200, 3, 1e-3, 1e3, 1e-300, 1e300}; return s.draw(3) == 0 ? uni(s, 0.01, 50) : t[s.draw(11)]; }
    if (dom == "extbnd") { static const double t[] = {1, 0, -1, 20, -20, 1e-9, -1e-9, 5, -5, 700, -700, 300, -200, -740}; return s.draw(3) == 0 ? uni(s, -20, 20) : t[s.draw(14)]; }
    if (dom == "extreal") { static const double t[] = {1, 0, -1, 100, -100, 1e-9, 12345.678, -3e4, 1e-160, 1e22, -1e9}; return s.draw(3) == 0 ? uni(s, -100, 100) : t[s.draw(11)]; }
    if (dom == "extulim") { static const double t[] = {0.5, 0, -0.5, 0.999, -0.999, 1e-9, -0.99999, 0.9999999, 1e-200}; return s.draw(3) == 0 ? uni(s, -1, 1) : t[s.draw(9)]; }
    if (dom == "extnz") { static const double t[] = {1, -1, 1e-6, -1e-6, 1e6, -1e6, 0.1, 3}; return s.draw(3) == 0 ? uni(s, 0.1, 30) : t[s.draw(8)]; }
    if (dom == "far") {                    // any magnitude, both signs
        double x = s.draw(4) == 0 ? uni(s, 0.3, 3) : uni(s, 1, 9) * std::pow(10.0, (double)s.range(-200, 200));
        return s.draw(2) ? -x : x;
    }
    // densities: in and out of support
    if (dom == "sx" && s.draw(24) == 23) { static const double t[] = {1e-9, -1e-5, 1e4, -1e6, 1e-160, 40}; return t[s.draw(6)]; }
    if (dom == "sx") return s.draw(3) == 0 ? (double)s.range(-3, 3) : uni(s, -3, 3);
    if (dom == "sxo") return 131072 + (s.draw(3) == 0 ? (double)s.range(-3, 3) : uni(s, -3, 3));
    if (dom == "sscale") { switch (s.draw(13)) { case 12: { static const double t[] = {1e-4, 1e4, 30, 1e-2, 1e-7, 1e9}; return t[s.draw(6)]; } case 1: return 0; case 2: return -uni(s, 0.1, 2); case 3: return (double)s.range(-1, 3); default: return uni(s, 0.2, 3); } }
    if ((dom == "lo" || dom == "hi") && s.draw(24) == 23) { static const double t[] = {1e7, 100, 1e-3, 4.25}; double x = t[s.draw(4)]; return dom == "lo" ? -x : x; }
    if (dom == "lo") return s.draw(3) == 0 ? (double)s.range(-6, 0) : uni(s, -6, s.draw(6) == 0 ? 3 : -2);
    if (dom == "hi") return s.draw(3) == 0 ? (double)s.range(0, 6) : uni(s, s.draw(6) == 0 ? -3 : 2, 6);
    if (dom == "prob") { static const double t[] = {0.5, 0, 1, -0.5, 1.5, 0.25, 0.01, 0.99, 1e-3, 1e-6, 1e-9, 0.999999, 1e-30, 0.99999999999}; return s.draw(4) == 0 ? t[s.draw(14)] : uni(s, 0.02, 0.98); }
    if (dom == "trial") { static const double t[] = {0, 1, 0, 1, 0, 1, 0, 1, 1, 0, 2, 0.5, -1}; return t[s.draw(s.draw(4) == 0 ? 13 : 10)]; }
    throw std::runtime_error("dom " + dom);
}
static bool is_matdom(const std::string& d) { return d.substr(0, 2) == "pd" || d.substr(0, 2) == "sq" || d.substr(0, 4) == "spdx" || d.substr(0, 3) == "sym"; }
static void draw_mat(Src& s, const std::string& dom, long n, std::vector<double>& v) {
    if (dom.back() == '~' || dom.back() == '-') {      // the same matrices, some of them scaled ('~': so that their determinant may be far out of range)
        draw_mat(s, dom.substr(0, dom.size() - 1), n, v);
        long d = dom.back() == '~' ? 60 : n > 7 ? 5 : 20;
        if (s.draw(4) == 3) { double f = std::pow(10.0, (double)s.range(-d, d)); for (auto& x : v) x *= f; }
        return;
    }
    v.assign(n * n, 0);
    auto A = [&](long i, long j) -> double& { return v[i + j * n]; };
    if (dom == "sq") {                      // well conditioned, both determinant signs, permuted so pivoting matters
        std::vector<double> t(n * n);
        for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) t[i + j * n] = s.draw(4) == 0 ? 0 : uni(s, -0.8, 0.8);
        for (long i = 0; i < n; ++i) t[i + i * n] += (s.draw(2) ? -1 : 1) * (0.8 * n + 0.5);
        std::vector<long> p(n);
        for (long i = 0; i < n; ++i) p[i] = i;
        for (long i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + s.draw((uint64_t)(n - i))]);
        for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i, j) = t[p[i] + j * n];
        return;
    }
    // symmetric
    bool bad = dom == "spdx" && s.draw(6) == 1;
    for (long j = 0; j < n; ++j) for (long i = 0; i <= j; ++i) {
        double x = s.draw(4) == 0 ? 0 : uni(s, -0.7, 0.7);
        A(i, j) = A(j, i) = x;
    }
    for (long i = 0; i < n; ++i) A(i, i) += 0.7 * n + 0.4 + uni(s, 0, 1);
    if (bad) {
        long k = (long)s.draw((uint64_t)n);
        A(k, k) = -uni(s, 0.2, 3);
    }
    if (dom == "sym") switch (s.draw(3)) {  // also negative definite and indefinite
        case 1: for (auto& x : v) x = -x; break;
        case 2: for (long i = 0; i < n; ++i) if (s.draw(2)) A(i, i) = -A(i, i); break;
    }
}
static bool FLT = false;                // the program works in float: everything it is given is representable there
static void fround(std::vector<double>& v) { if (FLT) for (auto& x : v) x = (double)(float)x; }
static void draw_vals_(Src& s, const std::string& dom, long r, long c, std::vector<double>& v) {
    if (is_matdom(dom)) { draw_mat(s, dom, r, v); return; }
    v.resize(r * c);
    if (dom.back() == '?' && s.draw(3)) { draw_vals_(s, dom.substr(0, dom.size() - 1), r, c, v); return; }
    if (v.size() > 3 && (dom == "sscale" || dom == "lo" || dom == "hi" || dom == "prob") && s.draw(2)) {   // many of them: all in support
        for (auto& x : v) x = dom == "sscale" ? uni(s, 0.2, 3) : dom == "prob" ? uni(s, 0.02, 0.98) : dom == "lo" ? -uni(s, 3, 6) : uni(s, 3, 6);
        return;
    }
    for (auto& x : v) x = draw_val(s, dom);
}
static void draw_vals(Src& s, const std::string& dom, long r, long c, std::vector<double>& v) {
    draw_vals_(s, dom, r, c, v);
    fround(v);
}

// ------------------------------------------------------------------ statistics
struct Stats {
    long cases = 0, evals = 0, discards = 0, nontrivial = 0;
    std::map<std::string, long> tags, disc;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
} ST;
static std::string MODE;
static void tag(const std::string& t) { ++ST.tags[t]; }

struct Case {                         // one program with sizes, values and the live FastAD objects
    const ProgM& P;
    Layout L;
    State S;
    std::unique_ptr<EnvBase> env;
    std::set<int> eqo, opo;           // objects assigned
    Case(const ProgM& p) : P(p) {}
    long dim(int i) const { return L.dims[i]; }
    long columns() const {
        long c = 0;
        auto sz = [&](const VarM& v) { return (v.shape == 0 ? 1 : dim(v.r)) * (v.shape == 2 ? dim(v.c) : 1); };
        for (auto& v : P.vars) c += sz(v);
        for (auto& v : P.consts) c += sz(v) / 2;
        for (auto& b : P.banks) c += sz(b) * dim(b.n);
        return c;
    }
    void layout(Src& s) {
        for (auto& d : P.dims) L.dims.push_back(d.of < 0 ? s.range(d.lo, d.hi) : s.range(std::min(d.lo, L.dims[d.of]), L.dims[d.of]));
        uint64_t odd = P.dims.size() > 1 ? s.draw(400) : 0;
        if (odd % 10 == 9 && !FLT) {                                      // now and then one dimension well beyond the usual sizes
            size_t k = 1 + s.draw(P.dims.size() - 1);
            bool huge = odd == 399 || odd == 389;
            long was = L.dims[k], big = huge ? s.range(60, 330) : s.range(8, 37), cap = huge ? 700 : 160;
            if (P.dims[k].of < 0 && was > 0 && P.dims[k].lo != P.dims[k].hi) {
                L.dims[k] = big;
                if (columns() > cap) { L.dims[k] = big / 3 + 1; if (columns() > cap) L.dims[k] = was; }
                if (L.dims[k] > 7) tag(L.dims[k] >= 60 ? "huge" : "big");
            }
        } else if (odd % 30 == 21 && !P.zero.empty()) {     // or no elements at all
            size_t k = 1 + s.draw(P.dims.size() - 1);
            if (P.may_be_zero(k)) { L.dims[k] = 0; tag("empty"); }
        }
        long col = 0;
        auto obj = [&](const VarM& v) {
            long r = v.shape == 0 ? 1 : dim(v.r), c = v.shape == 2 ? dim(v.c) : 1;
            L.objs.push_back({r, c});
            S.objs.push_back({v.shape, r, c, v.role == "ph", col, v.dom});
            S.val.emplace_back(r * c, 0.0);
            col += r * c;
        };
        for (size_t i = 0; i < P.vars.size(); ++i) {
            obj(P.vars[i]);
            if (P.eqv.count((int)i)) eqo.insert((int)i);
            if (P.opv.count((int)i)) opo.insert((int)i);
        }
        for (size_t b = 0; b < P.banks.size(); ++b) {
            L.banks.emplace_back();
            for (long i = 0; i < dim(P.banks[b].n); ++i) {
                int id = (int)L.objs.size();
                L.banks.back().push_back(id);
                obj(P.banks[b]);
                if (P.eqb.count((int)b)) eqo.insert(id);
                if (P.opb.count((int)b)) opo.insert(id);
            }
        }
        for (int v : P.idx) L.idx.push_back((long)s.draw((uint64_t)L.objs[v].r));
        for (auto& v : P.vbanks) {
            L.vbanks.emplace_back(dim(v.n));
            for (auto& x : L.vbanks.back()) x = draw_val(s, v.dom);
            fround(L.vbanks.back());
        }
        for (auto& v : P.consts) {
            ConstL c;
            c.r = v.shape == 0 ? 1 : dim(v.r); c.c = v.shape == 2 ? dim(v.c) : 1;
            draw_vals(s, v.dom, c.r, c.c, c.v);
            L.consts.push_back(c);
            S.consts.push_back({v.shape, c.r, c.c, c.v});
        }
        L.shift = s.draw(4) == 3;
        S.banks = L.banks; S.vbanks = L.vbanks; S.dims = L.dims; S.idx = L.idx;
        S.ncol = col;
    }
    void make() {
        auto f = registry().find(P.id);
        if (f == registry().end()) throw std::runtime_error("no program " + P.id);
        env.reset(f->second(L));
    }
    bool ph(size_t o) const { return S.objs[o].role != 0; }
    void draw_leaves(Src& s, bool all = true) {
        for (size_t o = 0; o < S.objs.size(); ++o)
            if (all || s.draw(2)) draw_vals(s, ph(o) ? "real" : S.objs[o].dom, S.objs[o].r, S.objs[o].c, S.val[o]);
    }
    void push_leaf(size_t o) { std::memcpy(env->slots[o].v, S.val[o].data(), S.val[o].size() * sizeof(double)); }
    void push() { for (size_t o = 0; o < S.objs.size(); ++o) push_leaf(o); }
    // changes that keep sums, products, norms or determinants of a leaf while its elements move
    void shuffle_leaf(Src& s, size_t o) {
        auto& v = S.val[o];
        if (ph(o) || v.empty()) return;
        long r = S.objs[o].r, c = S.objs[o].c;
        std::string dom = S.objs[o].dom;
        if (dom.back() == '?') dom.pop_back();
        bool grid = dom == "bit" || dom == "logic" || dom == "cmp";
        if (!grid && (v.size() < 2 || s.draw(4) == 3)) {  // a small step towards zero, of everything or of one element
            double f = 1 - std::pow(10.0, -(double)s.range(2, 9));
            if (is_matdom(dom) || s.draw(2)) for (auto& x : v) x *= f;
            else v[s.draw(v.size())] *= f;
            return;
        }
        if (v.size() < 2) return;
        if ((dom == "sx" || dom == "lo" || dom == "hi" || dom == "real") && s.draw(3) == 2) {  // apart, the sum stays
            static const double t[] = {0.5, 1, 2, 4, 8};
            double d = t[s.draw(5)];
            size_t i = s.draw(v.size()), j = s.draw(v.size());
            v[i] += d; v[j] -= d;
            return;
        }
        if (is_matdom(S.objs[o].dom)) {
            long i = s.draw((uint64_t)r), j = s.draw((uint64_t)r);
            switch (s.draw(3)) {
                case 0:                                   // simultaneous row and column exchange
                    for (long k = 0; k < r; ++k) std::swap(v[i + k * r], v[j + k * r]);
                    for (long k = 0; k < r; ++k) std::swap(v[k + i * r], v[k + j * r]);
                    break;
                case 1:                                   // sign change of one row and column
                    for (long k = 0; k < r; ++k) v[i + k * r] = -v[i + k * r];
                    for (long k = 0; k < r; ++k) v[k + i * r] = -v[k + i * r];
                    break;
                default:                                  // transposition
                    for (long a = 0; a < r; ++a) for (long b = 0; b < a; ++b) std::swap(v[a + b * r], v[b + a * r]);
            }
        } else switch (s.draw(3)) {
            case 0: std::swap(v[s.draw(v.size())], v[s.draw(v.size())]); break;
            case 1: std::reverse(v.begin(), v.end()); break;
            default: std::rotate(v.begin(), v.begin() + 1, v.end());
        }
        (void)c;
    }
    void change_leaves(Src& s) {
        if (s.draw(3) == 0) { for (size_t o = 0; o < S.objs.size(); ++o) if (s.draw(2)) { shuffle_leaf(s, o); fround(S.val[o]); } }
        else draw_leaves(s, false);
    }
    // fills some leaves with values at which functions are undefined, without touching the model's values
    void poison(Src& s) {
        static const double t[] = {0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -1, -std::numeric_limits<double>::infinity(), 1e200, -2, 1e-200};
        bool all = s.draw(2);
        double x = t[s.draw(8)];
        for (size_t o = 0; o < S.objs.size(); ++o) {
            if (ph(o) || !(all || s.draw(2))) continue;
            if (!all) x = t[s.draw(8)];
            double* v = env->slots[o].v;
            size_t n = S.val[o].size();
            switch (s.draw(3)) {
                case 0: for (size_t i = 0; i < n; ++i) v[i] = x; break;
                case 1: if (n) v[s.draw(n)] = x; break;
                default: for (size_t i = 0; i < n; ++i) v[i] = -v[i];
            }
        }
    }
    void refresh(Src& s) {
        for (size_t i = 0; i < P.consts.size(); ++i) {
            if (!P.refresh[i] || !env->cptr[i] || s.draw(2)) continue;
            draw_vals(s, P.consts[i].dom, L.consts[i].r, L.consts[i].c, L.consts[i].v);
            S.consts[i].v = L.consts[i].v;
            std::memcpy(env->cptr[i], L.consts[i].v.data(), L.consts[i].v.size() * sizeof(double));
        }
    }
    std::vector<std::vector<double>> adjs() const {
        std::vector<std::vector<double>> a;
        for (auto& t : env->slots) a.emplace_back(t.a, t.a + t.r * t.c);
        return a;
    }
    void set_adjs(const std::vector<std::vector<double>>& a) {
        for (size_t o = 0; o < a.size(); ++o) std::memcpy(env->slots[o].a, a[o].data(), a[o].size() * sizeof(double));
    }
    std::vector<std::vector<double>> vals() const {
        std::vector<std::vector<double>> a;
        for (auto& t : env->slots) a.emplace_back(t.v, t.v + t.r * t.c);
        return a;
    }
    std::vector<std::vector<double>> zeros() const {
        std::vector<std::vector<double>> a;
        for (auto& o : S.objs) a.emplace_back(o.r * o.c, 0.0);
        return a;
    }
    std::string name(size_t o) const {
        if (o < P.vars.size()) return "v" + std::to_string(o);
        for (size_t b = 0; b < L.banks.size(); ++b) for (size_t i = 0; i < L.banks[b].size(); ++i)
            if (L.banks[b][i] == (int)o) return "b" + std::to_string(b) + "[" + std::to_string(i) + "]";
        return "?";
    }
    std::string describe() const {
        std::string r = "dims=[";
        for (auto d : L.dims) r += std::to_string(d) + " ";
        r += "]";
        char b[40];
        for (size_t o = 0; o < S.objs.size(); ++o) {
            r += " " + name(o) + "=[";
            for (double x : S.val[o]) { snprintf(b, sizeof b, "%.17g ", x); r += b; }
            r += "]";
        }
        for (size_t o = 0; o < S.consts.size(); ++o) {
            r += " c" + std::to_string(o) + "=[";
            for (double x : S.consts[o].v) { snprintf(b, sizeof b, "%.17g ", x); r += b; }
            r += "]";
        }
        for (size_t o = 0; o < S.vbanks.size(); ++o) {
            r += " k" + std::to_string(o) + "=[";
            for (double x : S.vbanks[o]) { snprintf(b, sizeof b, "%.17g ", x); r += b; }
            r += "]";
        }
        return r;
    }
    void check_unchanged(const std::vector<std::vector<double>>& was, const char* what, bool value, bool after_backward) {
        for (size_t o = 0; o < S.objs.size(); ++o) {
            if (value) {
                if (eqo.count((int)o)) continue;
                if (opo.count((int)o) && !after_backward) continue;
            }
            const double* now = value ? env->slots[o].v : env->slots[o].a;
            for (size_t i = 0; i < was[o].size(); ++i)
                if (std::memcmp(&now[i], &was[o][i], sizeof(double)) && !(now[i] == was[o][i]))
                    fail("%s: %s of %s element %zu changed from %.17g to %.17g", what, value ? "value" : "adjoint",
                         name(o).c_str(), i, was[o][i], now[i]);
        }
    }
    void check_consts(const char* what) {
        for (size_t i = 0; i < P.consts.size(); ++i) if (env->cptr[i])
            if (std::memcmp(env->cptr[i], L.consts[i].v.data(), L.consts[i].v.size() * sizeof(double)))
                fail("%s: constant c%zu was written to", what, i);
    }
};

static std::vector<double> draw_seed(Src& s, long n, bool scalar_root) {
    std::vector<double> v;
    if (scalar_root && s.draw(5) == 0) return v;              // default seed
    if (!scalar_root && n > 0 && s.draw(5) == 0) { v.assign(n, 0.0); v[s.draw((uint64_t)n)] = 1; return v; }
    for (long i = 0; i < n; ++i) {
        switch (s.draw(6)) {
            case 0: v.push_back(1); break;
            case 1: v.push_back((double)s.range(-4, 4) / 2); break;
            default: v.push_back(uni(s, -2, 2));
        }
    }
    return v;
}
// a hand-bound instance together with the memory it is bound to
struct RawBuf {
    long nv = 0, na = 0;
    std::unique_ptr<double[]> v, a;
    long pad = 0;
    static double garbage(int kind, long i) {
        switch (kind) {
            case 0: return 0;
            case 1: return std::numeric_limits<double>::quiet_NaN();
            case 2: return 1e300;
            case 3: return (double)(i % 7) - 3.25;
            default: return -std::numeric_limits<double>::infinity();
        }
    }
    // pad == 0: exact heap blocks, so that the address sanitizer sees the first element out of range
    void bind(Instance& I, int kind, long pad_) {
        pad = pad_;
        I.sizes(nv, na);
        if (nv < 0 || na < 0 || nv > 1000000 || na > 1000000) fail("reported cache size is nonsense: %ld %ld", nv, na);
        v.reset(new double[nv + 2 * pad]);
        a.reset(new double[na + 2 * pad]);
        fill(kind);
        double *ev = nullptr, *ea = nullptr;
        I.bind(v.get() + pad, a.get() + pad, ev, ea);
        if (ev != v.get() + pad + nv) fail("binding consumed %ld values, reported size %ld", (long)(ev - v.get() - pad), nv);
        if (ea != a.get() + pad + na) fail("binding consumed %ld adjoints, reported size %ld", (long)(ea - a.get() - pad), na);
    }
    void fill(int kind) {
        for (long i = 0; i < nv + 2 * pad; ++i) v[i] = (i < pad || i >= nv + pad) ? 4242.125 + i : garbage(kind, i);
        for (long i = 0; i < na + 2 * pad; ++i) a[i] = (i < pad || i >= na + pad) ? -4242.125 - i : garbage(kind, i + 3);
    }
    void canary() const {
        for (long i = 0; i < nv + 2 * pad; ++i) if ((i < pad || i >= nv + pad) && v[i] != 4242.125 + i) fail("value cache written outside its bounds at %ld (size %ld)", i - pad, nv);
        for (long i = 0; i < na + 2 * pad; ++i) if ((i < pad || i >= na + pad) && a[i] != -4242.125 - i) fail("adjoint cache written outside its bounds at %ld (size %ld)", i - pad, na);
    }
};
struct Live {                          // bound or raw instance
    RawBuf buf;
    std::unique_ptr<Instance> I;
    bool raw = false;
    void open(Case& C, Src& s, int force = -1) {
        raw = FLT ? false : force >= 0 ? force : s.draw(3) == 2;
        if (raw) { I.reset(C.env->raw()); buf.bind(*I, 1 + (int)s.draw(4), s.draw(2) ? 3 : 0); }
        else I.reset(C.env->bound());
    }
    void canary() const { if (raw) buf.canary(); }
};
// Comparisons between two runs of the library start from a fixed relative tolerance. A case that
// fails it is run once more with COND set: the tolerance is then widened by what the reference
// says rounding alone may do at those inputs, and the case is dropped if that is unbounded.
static bool COND = false;
static double TOLF = 1;
static void condition(const RefOut& R) {
    double gm = 0, vm = 0;
    for (double x : R.grad) gm = std::max(gm, std::fabs(x));
    for (double x : R.val) if (std::isfinite(x)) vm = std::max(vm, std::fabs(x));
    for (double t : R.gtol) if (gm > 0) TOLF = std::max(TOLF, 4 * t / (1e-12 * gm));
    for (double t : R.valtol) if (vm > 0) TOLF = std::max(TOLF, 4 * t / (1e-12 * vm));
}
static bool close_(double x, double y, double tol) {
    if (x == y) return true;
    return std::fabs(x - y) <= tol;
}
static void check_value(const RefOut& R, const std::vector<double>& out, long r, long c, const char* what) {
    if (r != R.r || c != R.c) fail("%s: result is %ldx%ld, expected %ldx%ld", what, r, c, R.r, R.c);
    for (size_t i = 0; i < out.size(); ++i)
        if (!close_(out[i], R.val[i], R.valtol[i]))
            fail("%s: value[%zu] = %.17g, expected %.17g (tolerance %.3g)", what, i, out[i], R.val[i], R.valtol[i]);
}
static void check_grad(Case& C, const RefOut& R, const std::vector<std::vector<double>>& prior, const char* what, const std::vector<double>& seed) {
    for (size_t o = 0; o < C.S.objs.size(); ++o) {
        const Obj& ob = C.S.objs[o];
        for (long i = 0; i < ob.r * ob.c; ++i) {
            double got = C.env->slots[o].a[i], exp = prior[o][i] + R.grad[ob.col + i];
            double tol = R.gtol[ob.col + i] + (FLT ? 1e-5 : 1e-13) * std::fabs(prior[o][i]);
            if (!close_(got, exp, tol))
                fail("%s: adjoint of %s[%ld] = %.17g, expected %.17g (tolerance %.3g, seed[0] %.17g)", what, C.name(o).c_str(), i, got, exp, tol,
                     seed.empty() ? 1.0 : seed[0]);
        }
    }
}
static std::vector<std::vector<double>> draw_prior(Case& C, Src& s) {
    auto a = C.zeros();
    int k = (int)s.draw(3);
    for (size_t o = 0; o < a.size(); ++o) {
        if (C.eqo.count((int)o) || C.opo.count((int)o) || C.ph(o)) continue;
        if (k == 1) for (auto& x : a[o]) x = (double)s.range(-8, 8) / 4;
    }
    return a;
}
static bool any_nz(const std::vector<double>& g) { for (double x : g) if (x != 0) return true; return false; }
static void check_assigned(Case& C, const RefOut& R, const char* what, bool after_backward) {
    for (auto& kv : R.fin) {
        if (after_backward && C.opo.count(kv.first)) continue;
        for (size_t i = 0; i < kv.second.size(); ++i)
            if (!close_(C.env->slots[kv.first].v[i], kv.second[i], R.fintol.at(kv.first)[i]))
                fail("%s: assigned variable %s[%zu] = %.17g, expected %.17g", what, C.name(kv.first).c_str(), i, C.env->slots[kv.first].v[i], kv.second[i]);
    }
}

// ------------------------------------------------------------------ mode: reference model
struct Nontriv { bool yes = false; };

static void mode_ref(Case& C, Src& s, Nontriv& nt) {
    C.layout(s); C.draw_leaves(s);
    C.make(); C.push();
    Live V; V.open(C, s);
    int sh = V.I->shape();
    int rounds = C.P.has("rounds") ? std::atoi(C.P.flag("rounds").c_str()) : 1 + (int)s.draw(2);
    for (int k = 0; k < rounds; ++k) {
        if (k) { C.change_leaves(s); C.push(); C.refresh(s); }
        else for (size_t o = 0; o < C.S.objs.size(); ++o) C.push_leaf(o);
        auto prior = draw_prior(C, s);
        C.set_adjs(prior);
        long n = V.I->rows() * V.I->cols();
        if (V.I->size() != n) fail("size() is %ld for a %ldx%ld expression", V.I->size(), V.I->rows(), V.I->cols());
        auto seed = draw_seed(s, n, sh == 0);
        fround(seed);
        bool separate = s.draw(2) == 0;
        int how = (int)s.draw(V.raw ? 2 : 3);
        RefOut R;
        try {
            R = reference(C.S, C.P.ast, seed, FLT ? 0x1p-21 : 0x1p-50);
            if (FLT && (R.lo < 1e-8 || R.hi > 1e6)) throw Discard("float range");
        }
        catch (Discard& d) { ++ST.discards; ++ST.disc[d.what()]; continue; }
        if (R.shape != sh) fail("expression has shape kind %d, expected %d", sh, R.shape);
        std::vector<double> out; long r, c;
        auto before = C.vals();
        if (separate) {
            V.I->feval(out, r, c, how);
            check_value(R, out, r, c, "forward");
            std::vector<double> again;
            V.I->get(again);
            if (again != out) for (size_t i = 0; i < out.size(); ++i) if (!(again[i] == out[i])) fail("value stored in the expression differs from the returned one");
            C.check_unchanged(prior, "forward evaluation", false, false);
            C.check_unchanged(before, "forward evaluation", true, false);
            check_assigned(C, R, "forward", false);
            V.I->beval(seed, how);
        } else {
            V.I->autodiff(out, r, c, seed, how);
            check_value(R, out, r, c, "autodiff");
        }
        bool loose = R.neg_inf && C.P.has("looseneg");
        if (!loose) check_grad(C, R, prior, separate ? "backward" : "autodiff", seed);
        C.check_unchanged(before, "backward evaluation", true, true);
        check_assigned(C, R, "backward", true);
        C.check_consts("evaluation");
        V.canary();
        ++ST.evals;
        tag(V.raw ? "hand_bound" : "bound");
        tag(separate ? "separate" : "autodiff");
        if (R.neg_inf) tag("out_of_support");
        if (any_nz(R.grad)) nt.yes = true;
        if (R.neg_inf) nt.yes = true;
        if (C.P.has("cmproot")) nt.yes = true;
        if (FLT) tag("float");
    }
}

// ------------------------------------------------------------------ mode: forward-mode scalars
static void mode_fwd(Case& C, Src& s, Nontriv& nt) {
    C.layout(s); C.draw_leaves(s);
    C.make();
    int prec = s.draw(3) == 2 && !C.P.has("dbl");
    size_t n = C.S.objs.size();
    if (prec) for (auto& v : C.S.val) v[0] = (double)(float)v[0];
    RefOut R;
    try { R = reference(C.S, C.P.ast, {1.0}, prec ? 0x1p-21 : 0x1p-50); }
    catch (Discard& d) { ++ST.discards; ++ST.disc[d.what()]; return; }
    if (prec && (R.lo < 1e-30 || R.hi > 1e30)) { ++ST.discards; ++ST.disc["float range"]; return; }
    double eps = prec ? 1e-5 : 1e-13, scale = 0;
    for (double g : R.grad) scale = std::max(scale, std::fabs(g));
    std::unique_ptr<Instance> I(C.env->raw());
    double v0 = 0; bool have = false;
    auto pass = [&](const std::vector<double>& dir, const char* what, bool exact_zero) {
        std::vector<double> x(n), dx = dir;
        for (size_t i = 0; i < n; ++i) x[i] = C.S.val[i][0];
        auto x0 = x;
        double v, d;
        I->fwd(x, dx, prec, v, d);
        if (!close_(v, R.val[0], R.valtol[0])) fail("%s: value %.17g, expected %.17g (tolerance %.3g, %s)", what, v, R.val[0], R.valtol[0], prec ? "float" : "double");
        if (have && v != v0) fail("%s: the value depends on the direction: %.17g and %.17g", what, v, v0);
        v0 = v; have = true;
        double want = 0, tol = eps * 1e-3 * scale + 1e-290;
        for (size_t i = 0; i < n; ++i) if (!C.ph(i)) { want += dir[i] * R.grad[i]; tol += std::fabs(dir[i]) * (R.gtol[i] + eps * std::fabs(R.grad[i])); }
        if (exact_zero) tol = 0;
        if (!close_(d, want, tol)) fail("%s: directional derivative %.17g, expected %.17g (tolerance %.3g, %s)", what, d, want, tol, prec ? "float" : "double");
        for (size_t i = 0; i < n; ++i) if (!C.eqo.count((int)i) && !C.opo.count((int)i))
            if (x[i] != x0[i] || dx[i] != dir[i]) fail("%s: operand x[%zu] changed from (%.17g, %.17g) to (%.17g, %.17g)", what, i, x0[i], dir[i], x[i], dx[i]);
        ++ST.evals;
        return d;
    };
    std::vector<double> z(n, 0.0), d1(n, 0.0), d2(n, 0.0);
    for (size_t i = 0; i < n; ++i) if (!C.ph(i)) { d1[i] = (double)s.range(-16, 16) / 8; d2[i] = (double)s.range(-16, 16) / 4; }
    pass(z, "zero direction", true);
    for (size_t i = 0; i < n; ++i) if (!C.ph(i)) { auto u = z; u[i] = 1; pass(u, "unit direction", false); }
    pass(d1, "random direction", false);
    double a = pass(d2, "second direction", false);
    auto d3 = d2;
    bool wide = s.draw(6) == 5 && !prec && R.lo > 1e-60 && R.hi < 1e60;
    int k = (int)s.range(-6, 6) * (wide ? 45 : 1);
    bool tiny = !prec && R.lo < 1e-280;          // scaling by 2^k is not exact among denormals
    for (auto& t : d3) t = std::ldexp(t, k);
    double b = pass(d3, "scaled direction", false);
    if (!tiny && !close_(b, std::ldexp(a, k), std::ldexp(scale, k) * eps * 64 * (double)n)) fail("direction scaled by 2^%d: derivative %.17g and %.17g", k, a, b);
    if (any_nz(R.grad)) nt.yes = true;
    tag(prec ? "float" : "double");
}

// ------------------------------------------------------------------ mode: seeds
static std::vector<std::vector<double>> run_with(Case& C, Live& V, const std::vector<double>& seed, int how,
                                                 std::vector<double>* val = nullptr, const std::vector<std::vector<double>>* prior = nullptr) {
    C.push();
    C.set_adjs(prior ? *prior : C.zeros());
    std::vector<double> out; long r, c;
    if (how % 2) { V.I->feval(out, r, c, 0); V.I->beval(seed, 0); }
    else V.I->autodiff(out, r, c, seed, 0);
    if (val) *val = out;
    return C.adjs();
}
static double maxabs(const std::vector<std::vector<double>>& g) {
    double m = 0;
    for (auto& x : g) for (double y : x) m = std::max(m, std::fabs(y));
    return m;
}
static bool finite_(const std::vector<std::vector<double>>& g) {
    for (auto& x : g) for (double y : x) if (!std::isfinite(y) || std::fabs(y) > 1e100) return false;
    return true;
}
static void cmp_adj(Case& C, const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b, double tol, const char* what) {
    for (size_t o = 0; o < a.size(); ++o) for (size_t i = 0; i < a[o].size(); ++i)
        if (!close_(a[o][i], b[o][i], TOLF * tol + 1e-290) && !(std::isnan(a[o][i]) && std::isnan(b[o][i])))
            fail("%s: adjoint of %s[%zu] is %.17g, expected %.17g (tolerance %.3g)", what, C.name(o).c_str(), i, a[o][i], b[o][i], tol);
}
static void mode_seed(Case& C, Src& s, Nontriv& nt) {
    C.layout(s); C.draw_leaves(s); C.make(); C.push();
    Live V; V.open(C, s);
    long n = V.I->rows() * V.I->cols();
    bool scl = V.I->shape() == 0;
    std::vector<double> s1(n), s2(n), s3(n), z(n, 0.0), p2(n);
    for (auto& x : s1) x = uni(s, -2, 2);
    for (auto& x : s2) x = s.draw(4) == 0 ? 0 : uni(s, -2, 2);
    int k = (int)s.range(-9, 9), f = (int)s.draw(4);
    for (long i = 0; i < n; ++i) s3[i] = s1[i] + s2[i];
    RefOut R1, R2, R3;
    try { R1 = reference(C.S, C.P.ast, s1); R2 = reference(C.S, C.P.ast, s2); R3 = reference(C.S, C.P.ast, s3); }
    catch (Discard& d) { ++ST.discards; ++ST.disc[d.what()]; return; }
    if (f == 3) k *= 9;
    if (f == 2 && R1.lo > 1e-50 && R1.hi < 1e50) k *= 28;
    for (long i = 0; i < n; ++i) p2[i] = std::ldexp(s1[i], k);
    int how = (int)s.draw(2);
    std::vector<double> v0, v1;
    auto g1 = run_with(C, V, s1, how, &v0);
    if (!finite_(g1)) { ++ST.discards; return; }
    if (COND) { condition(R1); condition(R2); condition(R3); }
    double m = maxabs(g1);
    // power-of-two scaling commutes with rounding
    auto gs = run_with(C, V, p2, how, &v1);
    if (v0 != v1) for (size_t i = 0; i < v0.size(); ++i) if (!close_(v0[i], v1[i], TOLF * 1e-12 * std::fabs(v0[i]))) fail("the value depends on the seed");
    auto e = g1;
    for (auto& x : e) for (auto& y : x) y = std::ldexp(y, k);
    cmp_adj(C, gs, e, std::ldexp(m, k) * 1e-12, "seed scaled by a power of two");
    // zero seed contributes nothing at all
    auto pr = draw_prior(C, s);
    auto gz = run_with(C, V, z, how, nullptr, &pr);
    cmp_adj(C, gz, pr, 0, "zero seed");
    // additivity, within the accuracy of each evaluation
    auto g2 = run_with(C, V, s2, how), g3 = run_with(C, V, s3, how);
    for (size_t o = 0; o < g1.size(); ++o) for (size_t i = 0; i < g1[o].size(); ++i) {
        long col = C.S.objs[o].col + (long)i;
        double tol = R1.gtol[col] + R2.gtol[col] + R3.gtol[col] + 1e-290;
        if (!close_(g3[o][i], g1[o][i] + g2[o][i], tol))
            fail("additivity in the seed: adjoint of %s[%zu] is %.17g for s1+s2 but %.17g for s1 plus %.17g for s2 (tolerance %.3g)",
                 C.name(o).c_str(), i, g3[o][i], g1[o][i], g2[o][i], tol);
    }
    // accumulation on top of what is already there
    auto gp = run_with(C, V, s1, how, nullptr, &pr);
    auto ep = g1;
    for (size_t o = 0; o < ep.size(); ++o) for (size_t i = 0; i < ep[o].size(); ++i) ep[o][i] += pr[o][i];
    cmp_adj(C, gp, ep, 1e-12 * (m + maxabs(pr)), "accumulation onto existing adjoints");
    if (scl) {
        auto gd = run_with(C, V, {}, how), g_1 = run_with(C, V, {1.0}, how);
        cmp_adj(C, gd, g_1, maxabs(g_1) * 1e-12, "default seed against seed 1");
    } else if (n <= 12) {
        auto acc = C.zeros();
        for (long i = 0; i < n; ++i) {
            auto u = z; u[i] = 1;
            auto g = run_with(C, V, u, how);
            for (size_t o = 0; o < g.size(); ++o) for (size_t j = 0; j < g[o].size(); ++j) acc[o][j] += s1[i] * g[o][j];
        }
        double M = 0;
        for (double t : R1.gtol) M = std::max(M, t);
        cmp_adj(C, g1, acc, n * (M + 1e-12 * m), "one-hot seeds recombined");
    }
    V.canary();
    ST.evals += 6;
    if (m > 0) nt.yes = true;
    tag(scl ? "scalar_root" : "array_root");
}

// ------------------------------------------------------------------ mode: histories
struct Outcome { std::vector<double> v; std::vector<std::vector<double>> g; };
static Outcome fresh(Case& C, const std::vector<double>& seed) {
    if (COND) condition(reference(C.S, C.P.ast, seed));
    auto keepv = C.vals(); auto keepa = C.adjs();
    C.push(); C.set_adjs(C.zeros());
    Outcome o;
    std::unique_ptr<Instance> I(C.env->bound());
    long r, c;
    I->autodiff(o.v, r, c, seed, 0);
    o.g = C.adjs();
    for (size_t i = 0; i < keepv.size(); ++i) std::memcpy(C.env->slots[i].v, keepv[i].data(), keepv[i].size() * 8);
    C.set_adjs(keepa);
    return o;
}
static void cmp_val(const std::vector<double>& a, const std::vector<double>& b, const char* what) {
    if (a.size() != b.size()) fail("%s: %zu elements, expected %zu", what, a.size(), b.size());
    double m = 0;
    for (double x : b) if (std::isfinite(x)) m = std::max(m, std::fabs(x));
    for (size_t i = 0; i < a.size(); ++i)
        if (!close_(a[i], b[i], TOLF * 1e-11 * m + 1e-290) && !(std::isnan(a[i]) && std::isnan(b[i])))
            fail("%s: value[%zu] = %.17g, expected %.17g", what, i, a[i], b[i]);
}
static void mode_hist(Case& C, Src& s, Nontriv& nt) {
    C.layout(s); C.draw_leaves(s); C.make(); C.push();
    C.set_adjs(C.zeros());
    std::vector<std::unique_ptr<Live>> Vs;
    Vs.emplace_back(new Live); Vs[0]->open(C, s);
    Vs.emplace_back(new Live); Vs[1]->open(C, s);
    auto acc = C.zeros();                    // what the adjoints should hold
    auto special = [&](size_t o) { return C.eqo.count((int)o) || C.opo.count((int)o) || C.ph(o); };
    int steps = 3 + (int)s.draw(6), done = 0;
    double big = 0;
    for (int k = 0; k < steps; ++k) {
        Live& V = *Vs[s.draw(4) == 0 ? 1 : 0];
        long n = V.I->rows() * V.I->cols();
        bool scl = V.I->shape() == 0;
        switch (s.draw(10)) {
            case 0: C.draw_leaves(s, true); C.push(); break;
            case 1: C.change_leaves(s); C.push(); break;
            case 2: {                          // a single element of a single leaf
                size_t o = s.draw(C.S.objs.size());
                if (!is_matdom(C.S.objs[o].dom) && !C.ph(o) && !C.S.val[o].empty()) {
                    size_t i = s.draw(C.S.val[o].size());
                    C.S.val[o][i] = draw_val(s, C.S.objs[o].dom);
                    C.env->slots[o].v[i] = C.S.val[o][i];
                }
                break;
            }
            case 3: C.refresh(s); break;
            case 4: {                          // reset all adjoints
                acc = C.zeros(); C.set_adjs(acc); big = 0; break;
            }
            case 5: {                          // forward only, result discarded
                auto keepv = C.vals();
                std::vector<double> out; long r, c;
                bool has_op = !C.opo.empty();
                V.I->feval(out, r, c, (int)s.draw(2));
                if (has_op) { C.push(); }
                cmp_val(out, fresh(C, std::vector<double>(scl ? 1 : n, 1.0)).v, "forward-only evaluation");
                for (size_t o = 0; o < acc.size(); ++o) if (!special(o)) for (size_t i = 0; i < acc[o].size(); ++i)
                    if (!close_(C.env->slots[o].a[i], acc[o][i], TOLF * 1e-10 * big + 1e-290)) fail("forward evaluation changed the adjoint of %s[%zu]", C.name(o).c_str(), i);
                break;
            }
            case 6: case 7: {                  // an evaluation at inputs where anything may happen, then back to valid ones
                auto a = C.adjs();
                C.poison(s);
                std::vector<double> out; long r, c;
                auto sd = draw_seed(s, n, scl);
                int q = (int)s.draw(3);
                try {
                    if (q == 0) V.I->autodiff(out, r, c, sd, 0);
                    else { V.I->feval(out, r, c, 0); if (q == 1) V.I->beval(sd, 0); }
                } catch (Fail&) { throw; }
                C.push(); C.set_adjs(a);
                tag("recovered");
                break;
            }
            default: break;
        }
        auto seed = draw_seed(s, n, scl);
        bool twice = s.draw(5) == 0;
        for (int rep = 0; rep < 1 + twice; ++rep) {
            auto want = fresh(C, seed);
            if (!finite_(want.g)) { ++ST.discards; return; }
            // placeholders and op-assigned variables start from a zero adjoint
            for (size_t o = 0; o < acc.size(); ++o) if (special(o)) {
                std::memset(C.env->slots[o].a, 0, 8 * acc[o].size());
                std::fill(acc[o].begin(), acc[o].end(), 0.0);
            }
            std::vector<double> out; long r, c;
            if (s.draw(2)) V.I->autodiff(out, r, c, seed, 0);
            else {
                if (s.draw(3) == 0 && C.opo.empty()) V.I->feval(out, r, c, 0);      // extra forward pass
                V.I->feval(out, r, c, (int)s.draw(2));
                V.I->beval(seed, (int)s.draw(2));
            }
            cmp_val(out, want.v, "re-evaluation against a fresh expression");
            double m = maxabs(want.g);
            big = std::max(big, m);
            for (size_t o = 0; o < acc.size(); ++o) for (size_t i = 0; i < acc[o].size(); ++i) {
                acc[o][i] += want.g[o][i];
                double got = C.env->slots[o].a[i];
                if (!close_(got, acc[o][i], TOLF * 1e-11 * (big * (done + 2)) + 1e-290))
                    fail("step %d: adjoint of %s[%zu] is %.17g after this history, but fresh evaluations add up to %.17g", k, C.name(o).c_str(), i, got, acc[o][i]);
            }
            ++done; ++ST.evals;
            if (m > 0 && done > 1) nt.yes = true;
            V.canary();
        }
    }
}

// ------------------------------------------------------------------ mode: cache binding
static void mode_cache(Case& C, Src& s, Nontriv& nt) {
    C.layout(s); C.draw_leaves(s); C.make(); C.push();
    std::unique_ptr<Instance> B(C.env->bound());
    long n = B->rows() * B->cols();
    auto seed = draw_seed(s, n, B->shape() == 0);
    auto one = [&](Instance& I, int how) {
        Outcome o; long r, c;
        C.push(); C.set_adjs(C.zeros());
        if (how) { I.feval(o.v, r, c, 0); I.beval(seed, 0); } else I.autodiff(o.v, r, c, seed, 0);
        o.g = C.adjs();
        return o;
    };
    int how = (int)s.draw(2);
    auto cond = [&] { if (COND) condition(reference(C.S, C.P.ast, seed)); };
    cond();
    auto want = one(*B, how);
    if (!finite_(want.g)) { ++ST.discards; return; }
    double m = maxabs(want.g);
    auto same = [&](const Outcome& o, const char* what) {
        cmp_val(o.v, want.v, what);
        cmp_adj(C, o.g, want.g, 1e-11 * m, what);
    };
    std::unique_ptr<Instance> I(C.env->raw());
    RawBuf b;
    int g1 = 1 + (int)s.draw(4);
    b.bind(*I, g1, s.draw(2) ? 5 : 0);
    long nv = b.nv, na = b.na;
    same(one(*I, how), "first evaluation on a garbage-filled cache");
    b.canary();
    int acts = 1 + (int)s.draw(4);
    for (int k = 0; k < acts; ++k) {
        switch (s.draw(5)) {
            case 0: b.fill((int)s.draw(5)); same(one(*I, how), "cache overwritten between evaluations"); break;
            case 1: { RawBuf b2; b2.bind(*I, (int)s.draw(5), s.draw(2) ? 7 : 0); std::swap(b.v, b2.v); std::swap(b.a, b2.a); b.nv = b2.nv; b.na = b2.na; b.pad = b2.pad;
                      b2.v.reset(); b2.a.reset(); same(one(*I, how), "rebound to another cache"); break; }
            case 2: { std::unique_ptr<Instance> J(I->copy());
                      RawBuf b2; b2.bind(*J, (int)s.draw(5), s.draw(2) ? 2 : 0);
                      if (b2.nv != nv || b2.na != na) fail("copy of an expression asks for a cache of %ld/%ld, the original for %ld/%ld", b2.nv, b2.na, nv, na);
                      same(one(*J, how), "copy bound to its own cache"); b2.canary();
                      same(one(*I, how), "original after its copy was bound and evaluated"); break; }
            case 3: { C.change_leaves(s); C.push(); cond();
                      want = one(*B, how);
                      if (!finite_(want.g)) { ++ST.discards; return; }
                      m = maxabs(want.g);
                      same(one(*I, how), "after new inputs"); break; }
            case 4: { b.bind(*I, (int)s.draw(5), b.pad); same(one(*I, how), "bound again"); break; }
        }
        b.canary();
        long v2, a2; I->sizes(v2, a2);
        if (v2 != nv || a2 != na) fail("reported cache size changed from %ld/%ld to %ld/%ld", nv, na, v2, a2);
        ++ST.evals;
    }
    if (m > 0 && nv + na > 0) nt.yes = true;
    tag(nv > 8 ? "cache>8" : "cache<=8");
}

// ------------------------------------------------------------------ mode: lifetimes and entry points
static void mode_life(Case& C0, Src& s, Nontriv& nt) {
    // a second set of variables, of other sizes and values, for the same type of expression
    std::unique_ptr<Case> D;
    auto ready = [&](Case& C) { C.layout(s); C.draw_leaves(s); C.make(); C.push(); C.set_adjs(C.zeros()); };
    ready(C0);
    struct Ent { Case* C; std::unique_ptr<Instance> I; };
    std::vector<Ent> pool;
    pool.push_back({&C0, std::unique_ptr<Instance>(C0.env->bound())});
    bool scl = pool[0].I->shape() == 0;
    int acts = 3 + (int)s.draw(7);
    for (int k = 0; k < acts; ++k) {
        size_t i = s.draw(pool.size());
        switch (s.draw(11)) {
            case 0: case 1: pool.push_back({pool[i].C, std::unique_ptr<Instance>(pool[i].I->copy())}); tag("copy"); break;
            case 2: { std::unique_ptr<Instance> x(pool[i].I->move()); pool[i].I = std::move(x); tag("move"); break; }      // moved-from object destroyed
            case 3: if (pool.size() > 1) { pool.erase(pool.begin() + i); tag("destroy"); } break;
            case 4: { std::unique_ptr<Instance> x(pool[i].I->copy()); std::unique_ptr<Instance> y(x->move()); pool.push_back({pool[i].C, std::move(y)}); break; }
            case 5: pool.push_back({pool[i].C, std::unique_ptr<Instance>(pool[i].C->env->bound())}); break;
            case 6: pool[i].C->change_leaves(s); pool[i].C->push(); break;
            case 7: if (!D) { D.reset(new Case(C0.P)); ready(*D); pool.push_back({D.get(), std::unique_ptr<Instance>(D->env->bound())}); tag("other variables"); } break;
            case 8: case 9: {                                                                  // one bound expression assigned to another
                size_t j = s.draw(pool.size());
                bool mv = s.draw(2) && i != j;
                pool[i].I->assign(*pool[j].I, mv);
                tag(i == j ? "self-assign" : pool[i].C != pool[j].C ? "assign other" : "assign");
                pool[i].C = pool[j].C;
                if (mv) pool.erase(pool.begin() + j);
                break; }
            default: break;
        }
        i = s.draw(pool.size());
        Case& C = *pool[i].C;
        Case* O = D && &C == &C0 ? D.get() : &C == &C0 ? nullptr : &C0;
        long n = pool[i].I->rows() * pool[i].I->cols();
        auto seed = draw_seed(s, n, scl);
        auto want = fresh(C, seed);
        if (!finite_(want.g)) { ++ST.discards; return; }
        C.push(); C.set_adjs(C.zeros());
        if (O) { O->push(); O->set_adjs(O->zeros()); }
        std::vector<double> out; long r, c;
        auto& I = *pool[i].I;
        int e = (int)s.draw(5);
        if (e < 2) I.autodiff(out, r, c, seed, e ? 2 : 0);
        else { I.feval(out, r, c, e - 2); I.beval(seed, (int)s.draw(3)); }
        char what[96];
        snprintf(what, sizeof what, "entry point %d on instance %zu of %zu", e, i, pool.size());
        cmp_val(out, want.v, what);
        cmp_adj(C, C.adjs(), want.g, 1e-11 * maxabs(want.g), what);
        if (O) {
            auto now = O->vals();
            for (size_t o = 0; o < now.size(); ++o) if (std::memcmp(now[o].data(), O->S.val[o].data(), now[o].size() * 8)) fail("%s: values of variables that the expression does not use have changed", what);
            cmp_adj(*O, O->adjs(), O->zeros(), 0, "adjoint of variables that the expression does not use");
        }
        ++ST.evals;
        if (maxabs(want.g) > 0 && k > 0) nt.yes = true;
    }
}

// ------------------------------------------------------------------ mode: interference
static void mode_mix(std::vector<std::unique_ptr<Case>>& Cs, Src& s, Nontriv& nt) {
    struct One { Case* C; Live V; std::vector<double> seed; Outcome want; int phase = 0; long n; int reps = 0; };
    std::vector<std::unique_ptr<One>> xs;
    for (auto& c : Cs) {
        c->layout(s); c->draw_leaves(s); c->make(); c->push();
        for (int k = 0; k < 1; ++k) {
            std::unique_ptr<One> o(new One);
            o->C = c.get();
            o->V.open(*c, s);
            o->n = o->V.I->rows() * o->V.I->cols();
            o->seed = draw_seed(s, o->n, o->V.I->shape() == 0);
            o->want = fresh(*c, o->seed);
            c->push(); c->set_adjs(c->zeros());
            if (!finite_(o->want.g)) { ++ST.discards; return; }
            xs.push_back(std::move(o));
        }
    }
    int left = (int)xs.size(), steps = 0;
    double m = 0;
    while (left && steps < 200) {
        ++steps;
        One& o = *xs[s.draw(xs.size())];
        if (o.phase == 0) {
            std::vector<double> out; long r, c;
            o.V.I->feval(out, r, c, 0);
            cmp_val(out, o.want.v, "forward interleaved with other expressions");
            o.phase = 1;
        } else if (o.phase == 1) {
            o.V.I->beval(o.seed, 0);
            cmp_adj(*o.C, o.C->adjs(), o.want.g, 1e-11 * maxabs(o.want.g), "backward interleaved with other expressions");
            m = std::max(m, maxabs(o.want.g));
            o.phase = 2;
            ++ST.evals;
        } else if (o.phase == 2) {
            if (o.reps++ == 0 && s.draw(2)) {
                o.C->draw_leaves(s, false); o.C->push(); o.C->set_adjs(o.C->zeros());
                o.want = fresh(*o.C, o.seed);
                o.C->push(); o.C->set_adjs(o.C->zeros());
                if (!finite_(o.want.g)) { ++ST.discards; return; }
                o.phase = 0;
            } else { o.phase = 3; --left; }
        }
    }
    if (m > 0) nt.yes = true;
}
// several threads, each with its own variables and expressions; compared with the serial outcome
static void mode_thread(std::vector<std::unique_ptr<Case>>& Cs, Src& s, Nontriv& nt) {
    struct One { Case* C; std::vector<std::vector<double>> seeds; std::vector<std::vector<std::vector<double>>> vals; std::vector<Outcome> want; std::string err; };
    std::vector<One> xs;
    const int REP = 6;
    for (auto& c : Cs) {
        c->layout(s); c->make();
        One o; o.C = c.get();
        for (int k = 0; k < REP; ++k) {
            c->draw_leaves(s); c->push();
            std::unique_ptr<Instance> I(c->env->bound());
            o.seeds.push_back(draw_seed(s, I->rows() * I->cols(), I->shape() == 0));
            o.vals.push_back(c->S.val);
            o.want.push_back(fresh(*c, o.seeds.back()));
            if (!finite_(o.want.back().g)) { ++ST.discards; return; }
        }
        xs.push_back(std::move(o));
    }
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (auto& x : xs) ts.emplace_back([&x, &ready, &xs] {
        ++ready;
        while (ready.load() < (int)xs.size()) std::this_thread::yield();
        try {
            std::unique_ptr<Instance> I(x.C->env->bound());
            for (int k = 0; k < REP; ++k) {
                x.C->S.val = x.vals[k];
                x.C->push(); x.C->set_adjs(x.C->zeros());
                std::vector<double> out; long r, c;
                I->autodiff(out, r, c, x.seeds[k], 0);
                cmp_val(out, x.want[k].v, "value computed concurrently");
                cmp_adj(*x.C, x.C->adjs(), x.want[k].g, 1e-11 * maxabs(x.want[k].g), "gradient computed concurrently");
            }
        } catch (std::exception& e) { x.err = e.what(); }
    });
    for (auto& t : ts) t.join();
    for (auto& x : xs) if (!x.err.empty()) throw Fail(x.err);
    for (auto& x : xs) for (auto& w : x.want) if (maxabs(w.g) > 0) nt.yes = true;
    ST.evals += (long)xs.size() * REP;
}

// ------------------------------------------------------------------ running
static std::vector<ProgM> PROGS;
static std::string DESC;

static void run_case_(size_t pi, Src& s, Nontriv& nt) {
    DESC.clear();
    if (MODE == "mix" || MODE == "thread") {
        std::vector<std::unique_ptr<Case>> Cs;
        size_t k = MODE == "mix" ? 2 + s.draw(2) : 4;
        for (size_t i = 0; i < k; ++i) Cs.emplace_back(new Case(PROGS[(pi + (i ? s.draw(4) : 0)) % PROGS.size()]));   // may repeat: same code, different data
        try { if (MODE == "mix") mode_mix(Cs, s, nt); else mode_thread(Cs, s, nt); }
        catch (Fail&) { for (auto& c : Cs) DESC += c->P.id + ": " + c->describe() + " | "; throw; }
        for (auto& c : Cs) DESC += c->P.id + ": " + c->describe() + " | ";
        return;
    }
    Case C(PROGS[pi]);
    FLT = C.P.has("flt");
    std::string m = C.P.flags.count("mode") ? C.P.flags.at("mode") : MODE;
    try {
        if (m == "ref") mode_ref(C, s, nt);
        else if (m == "seed") mode_seed(C, s, nt);
        else if (m == "hist") mode_hist(C, s, nt);
        else if (m == "cache") mode_cache(C, s, nt);
        else if (m == "life") mode_life(C, s, nt);
        else if (m == "fwd") mode_fwd(C, s, nt);
        else throw std::runtime_error("mode " + m);
    } catch (Fail&) { DESC = C.describe(); throw; }
    if (ST.samples.size() < 64) DESC = C.describe();
}
static void run_case(size_t pi, Src& s, Nontriv& nt) {
    COND = MODE == "thread"; TOLF = 1;
    try { run_case_(pi, s, nt); return; }
    catch (Fail&) { if (COND || MODE == "ref" || MODE == "fwd") throw; }
    catch (Discard& d) { ++ST.discards; ++ST.disc[d.what()]; return; }
    auto saved = s.rec;
    Src t(saved);
    COND = true;
    try { run_case_(pi, t, nt); }
    catch (Discard& d) { ++ST.discards; ++ST.disc[d.what()]; }
}
} // namespace hv

using namespace hv;
static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; }
    return r;
}
int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    MODE = a["--mode"];
    std::ifstream f(a["--progs"]);
    std::string line;
    while (std::getline(f, line)) if (!line.empty()) PROGS.push_back(load(line));
    if (a.count("--replay")) {                       // --replay PROG --choices 1,2,3
        for (size_t i = 0; i < PROGS.size(); ++i) if (PROGS[i].id == a["--replay"]) {
            Src s = a.count("--caseseed") ? Src(std::stoull(a["--caseseed"])) : Src(split(a["--choices"]));
            if (a.count("--trace")) s.trace = fopen(a["--trace"].c_str(), "w");
            Nontriv nt;
            try { run_case(i, s, nt); }
            catch (Fail& e) { printf("FAIL %s\n%s\n", e.what(), DESC.c_str()); return 3; }
            printf("ok %s\n", DESC.c_str());
            return 0;
        }
        fprintf(stderr, "no such program\n");
        return 2;
    }
    uint64_t seed = std::stoull(a["--seed"]);
    long cases = std::stol(a["--cases"]);
    long slice = a.count("--slice") ? std::stol(a["--slice"]) : 0, slices = a.count("--slices") ? std::stol(a["--slices"]) : 1;
    double limit = a.count("--seconds") ? std::stod(a["--seconds"]) : 1e9;
    auto t0 = std::chrono::steady_clock::now();
    int st = a.count("--state") ? open(a["--state"].c_str(), O_RDWR | O_CREAT, 0644) : -1;
    std::string failmsg;
    std::set<std::string> known, done;               // programs of known findings: reported once, then left out
    { std::stringstream ks(a["--known"]); std::string k; while (std::getline(ks, k, ',')) known.insert(k); }
    for (long k = 0; k < cases && failmsg.empty(); ++k) {
        for (size_t i = (size_t)slice; i < PROGS.size() && failmsg.empty(); i += (size_t)slices) {
            if (done.count(PROGS[i].id)) continue;
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { k = cases; break; }
            uint64_t h = 1469598103934665603ull;
            for (char c : PROGS[i].id) h = (h ^ (unsigned char)c) * 1099511628211ull;
            uint64_t cs = mix(mix(seed, h), (uint64_t)k);
            if (st >= 0) { char b[128]; int n = snprintf(b, sizeof b, "%-60s %20llu\n", PROGS[i].id.c_str(), (unsigned long long)cs); if (pwrite(st, b, n, 0)) {} }
            Src s(cs);
            Nontriv nt;
            ++ST.cases;
            try { run_case(i, s, nt); }
            catch (Fail& e) {
                auto choices = s.rec;
                failmsg = e.what();
                bool again = true;
                for (int q = 0; q < 3 && again; ++q) {
                    Src t(choices); Nontriv n2; again = false;
                    try { run_case(i, t, n2); } catch (Fail&) { again = true; }
                }
                auto t1 = std::chrono::steady_clock::now();
                auto best = again ? shrink(choices, [&](const std::vector<uint64_t>& c) {
                    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count() > 60) return false;
                    Src t(c); Nontriv n2;
                    try { run_case(i, t, n2); } catch (Fail&) { return true; } catch (std::exception&) { return false; }
                    return false;
                }, 1500) : choices;
                Src t(best); Nontriv n2;
                try { run_case(i, t, n2); } catch (Fail& e2) { failmsg = e2.what(); }
                printf("FAIL\t%s\t%s\t%d\t%s\t%s\n", PROGS[i].id.c_str(), join(best).c_str(), (int)again, esc(failmsg).c_str(), esc(DESC).c_str());
                fflush(stdout);
                if (known.count(PROGS[i].id)) { done.insert(PROGS[i].id); failmsg.clear(); continue; }
                break;
            }
            if (nt.yes) {
                ++ST.nontrivial;
                uint64_t hh = h;
                for (auto x : s.rec) hh = (hh ^ x) * 1099511628211ull;
                if (ST.distinct.insert(hh).second && ST.samples.size() < 3 && (ST.distinct.size() % 37 == 1)) ST.samples.push_back(PROGS[i].id + " " + DESC.substr(0, 600));
            }
        }
    }
    printf("STATS\t{\"cases\":%ld,\"evals\":%ld,\"discards\":%ld,\"nontrivial\":%ld,\"distinct\":%zu,\"tags\":{", ST.cases, ST.evals, ST.discards, ST.nontrivial, ST.distinct.size());
    bool first = true;
    for (auto& t : ST.tags) { printf("%s\"%s\":%ld", first ? "" : ",", t.first.c_str(), t.second); first = false; }
    printf("},\"discard_reasons\":{");
    first = true;
    for (auto& t : ST.disc) { printf("%s\"%s\":%ld", first ? "" : ",", t.first.c_str(), t.second); first = false; }
    printf("},\"samples\":[");
    for (size_t i = 0; i < ST.samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", esc(ST.samples[i]).c_str());
    printf("]}\n");
    return failmsg.empty() ? 0 : 3;
}
