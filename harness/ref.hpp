// Reference model: an interpreter for the generated programs that knows nothing about FastAD.
// Every quantity carries its full derivative with respect to every leaf element (forward
// accumulation), evaluated in long double, and again in a noisy double (`Pert`) that perturbs
// each operation: the spread of the noisy runs is the error that any reasonable double
// evaluation of the same formula may show at that point.
#pragma once
#include <cmath>
#include <type_traits>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <stdexcept>
#include <limits>
#include <algorithm>
namespace hv {

// ---------------------------------------------------------------- s-expressions
struct Sx {
    std::string a;                 // atom, or
    std::vector<Sx> k;             // list
    bool list = false;
    const std::string& op() const { return k[0].a; }
    long num(size_t i) const { return std::strtol(k[i].a.c_str(), nullptr, 10); }
    double dbl(size_t i) const { return std::strtod(k[i].a.c_str(), nullptr); }
    const std::string& str(size_t i) const { return k[i].a; }
    size_t n() const { return k.size(); }
};
inline Sx parse_sx(const char*& p) {
    while (*p == ' ' || *p == '\n') ++p;
    Sx s;
    if (*p == '(') {
        ++p; s.list = true;
        for (;;) {
            while (*p == ' ' || *p == '\n') ++p;
            if (!*p) throw std::runtime_error("sx: eof");
            if (*p == ')') { ++p; break; }
            s.k.push_back(parse_sx(p));
        }
    } else {
        const char* b = p;
        while (*p && *p != ' ' && *p != '(' && *p != ')' && *p != '\n') ++p;
        s.a.assign(b, p);
    }
    return s;
}

// ---------------------------------------------------------------- scalars
struct Pert {
    static uint64_t& st() { static thread_local uint64_t s = 1; return s; }
    static double& mag() { static thread_local double m = 0x1p-50; return m; }
    double v;
    Pert(double x = 0) : v(x) {}
    static Pert noisy(double x) {
        uint64_t& s = st();
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        double u = (double)(int64_t)(s) * 0x1p-63;      // [-1,1)
        return Pert(x * (1 + mag() * u));
    }
};
inline Pert operator+(Pert a, Pert b) { return Pert::noisy(a.v + b.v); }
inline Pert operator-(Pert a, Pert b) { return Pert::noisy(a.v - b.v); }
inline Pert operator*(Pert a, Pert b) { return Pert::noisy(a.v * b.v); }
inline Pert operator/(Pert a, Pert b) { return Pert::noisy(a.v / b.v); }
inline Pert operator-(Pert a) { return Pert(-a.v); }
inline bool operator<(Pert a, Pert b) { return a.v < b.v; }
inline bool operator==(Pert a, Pert b) { return a.v == b.v; }
#define HV_F1(f) inline Pert f(Pert a) { return Pert::noisy(std::f(a.v)); }
HV_F1(sin) HV_F1(cos) HV_F1(tan) HV_F1(asin) HV_F1(acos) HV_F1(atan) HV_F1(exp) HV_F1(log)
HV_F1(sqrt) HV_F1(erf) HV_F1(sinh) HV_F1(cosh) HV_F1(tanh)
#undef HV_F1
using std::sin; using std::cos; using std::tan; using std::asin; using std::acos; using std::atan; using std::exp;
using std::log; using std::sqrt; using std::erf; using std::sinh; using std::cosh; using std::tanh;
inline double todbl(Pert a) { return a.v; }
inline long double todbl(long double a) { return a; }
inline double fabsT(Pert a) { return std::fabs(a.v); }
inline long double fabsT(long double a) { return std::fabs(a); }

// ---------------------------------------------------------------- layout of one instance
struct Obj { int shape; long r, c; int role; long col; std::string dom; };   // shape 0 scl 1 vec 2 mat
struct Const { int shape; long r, c; std::vector<double> v; };
struct State {                        // the inputs of one evaluation
    std::vector<Obj> objs;            // every variable object, leaves and placeholders
    std::vector<std::vector<double>> val;   // current values per object
    std::vector<std::vector<int>> banks;    // bank id -> object ids
    std::vector<std::vector<double>> vbanks;
    std::vector<Const> consts;
    std::vector<long> dims;           // resolved dimension values
    std::vector<long> idx;            // resolved element indices
    long ncol = 0;                    // number of derivative columns
};

struct Discard : std::runtime_error { using std::runtime_error::runtime_error; };

template <class T> struct Val {
    int shape = 0; long r = 0, c = 0, N = 0;
    std::vector<T> v, g;
    Val() {}
    Val(int s, long r_, long c_, long n) : shape(s), r(r_), c(c_), N(n), v(r_ * c_, T(0)), g(r_ * c_ * n, T(0)) {}
    long size() const { return r * c; }
    T* grad(long i) { return g.data() + i * N; }
    const T* grad(long i) const { return g.data() + i * N; }
};

template <class T> struct Eval {
    using V = Val<T>;
    const State& S;
    std::map<int, V> cur;             // placeholders / op-assigned variables: current value
    std::vector<char> trace;          // branch outcomes, compared between runs
    std::map<int, int> nassign;
    int it = -1;                      // loop index
    long N;
    explicit Eval(const State& s) : S(s), N(s.ncol) {}

    V leaf(int id) {
        auto f = cur.find(id);
        if (f != cur.end()) return f->second;
        const Obj& o = S.objs[id];
        V x(o.shape, o.r, o.c, N);
        for (long i = 0; i < x.size(); ++i) {
            x.v[i] = T(S.val[id][i]);
            x.grad(i)[o.col + i] = T(1);
        }
        return x;
    }
    V cst(int shape, long r, long c, const double* d) {
        V x(shape, r, c, N);
        for (long i = 0; i < x.size(); ++i) x.v[i] = T(d[i]);
        return x;
    }
    V slice(const V& a, int shape, long off, long n) {
        V x(shape, n, 1, N);
        for (long i = 0; i < n; ++i) {
            x.v[i] = a.v[off + i];
            std::copy(a.grad(off + i), a.grad(off + i) + N, x.grad(i));
        }
        return x;
    }
    int itobj(const Sx& e) { return S.banks[e.num(1)][it]; }

    // ---- scalar jets used inside composite formulas
    struct J { T v; std::vector<T> g; };
    J jet(const V& a, long i) { J j; j.v = a.v[i]; j.g.assign(a.grad(i), a.grad(i) + N); return j; }
    J jc(T x) { J j; j.v = x; j.g.assign(N, T(0)); return j; }
    void put(V& a, long i, const J& j) { a.v[i] = j.v; std::copy(j.g.begin(), j.g.end(), a.grad(i)); }
    J comb(T v, const J& a, T da, const J& b, T db) {
        J j; j.v = v; j.g.resize(N);
        for (long k = 0; k < N; ++k) j.g[k] = lin(da, a.g[k], db, b.g[k]);
        return j;
    }
    // 0-derivative columns stay exactly zero whatever the factor is
    static bool z(const T& x) { return x == T(0); }
    bool smooth = true;               // every intermediate value and derivative is finite
    bool fin(const T& x) { if (!std::isfinite((double)todbl(x))) smooth = false; return true; }
    T lin(T da, T a, T db, T b) {
        fin(da); fin(db);
        if (z(a)) return z(b) ? T(0) : db * b;
        if (z(b)) return da * a;
        return da * a + db * b;
    }
    J lin1(T v, const J& a, T da) {
        J j; j.v = v; j.g.resize(N);
        fin(da);
        for (long k = 0; k < N; ++k) j.g[k] = z(a.g[k]) ? T(0) : da * a.g[k];
        return j;
    }
    J add(const J& a, const J& b) { return comb(a.v + b.v, a, T(1), b, T(1)); }
    J sub(const J& a, const J& b) { return comb(a.v - b.v, a, T(1), b, T(-1)); }
    J mul(const J& a, const J& b) { return comb(a.v * b.v, a, b.v, b, a.v); }
    J div(const J& a, const J& b) { T f = a.v / b.v; return comb(f, a, T(1) / b.v, b, -(f / b.v)); }
    J jlog(const J& a) { return lin1(log(a.v), a, T(1) / a.v); }
    J scale(const J& a, T s) { return lin1(a.v * s, a, s); }

    J unary(const std::string& f, const J& a) {
        T x = a.v;
        if (f == "neg") return lin1(-x, a, T(-1));
        if (f == "sin") return lin1(sin(x), a, cos(x));
        if (f == "cos") return lin1(cos(x), a, -sin(x));
        if (f == "tan") { T c = cos(x); return lin1(tan(x), a, T(1) / (c * c)); }
        if (f == "asin") return lin1(asin(x), a, T(1) / sqrt(T(1) - x * x));
        if (f == "acos") return lin1(acos(x), a, -(T(1) / sqrt(T(1) - x * x)));
        if (f == "atan") return lin1(atan(x), a, T(1) / (T(1) + x * x));
        if (f == "exp") { T e = exp(x); return lin1(e, a, e); }
        if (f == "log") return lin1(log(x), a, T(1) / x);
        if (f == "sqrt") { T s = sqrt(x); return lin1(s, a, T(1) / (T(2) * s)); }
        if (f == "erf") return lin1(erf(x), a, T(1.1283791670955125738961589031215451716881L) * exp(-(x * x)));
        if (f == "sigmoid") {
            if (todbl(x) >= 0) { T e = exp(-x), s = T(1) / (T(1) + e); return lin1(s, a, s * (T(1) - s)); }
            T e = exp(x), s = e / (T(1) + e); return lin1(s, a, s * (T(1) - s));
        }
        if (f == "sinh") return lin1(sinh(x), a, cosh(x));
        if (f == "cosh") return lin1(cosh(x), a, sinh(x));
        if (f == "tanh") { T t = tanh(x); return lin1(t, a, T(1) - t * t); }
        throw std::runtime_error("unary " + f);
    }
    static bool isbool(const std::string& o) {
        return o == "<" || o == "<=" || o == ">" || o == ">=" || o == "==" || o == "!=" || o == "&&" || o == "||";
    }
    J binary(const std::string& o, const J& a, const J& b) {
        if (o == "+") return add(a, b);
        if (o == "-") return sub(a, b);
        if (o == "*") return mul(a, b);
        if (o == "/") return div(a, b);
        auto x = todbl(a.v); auto y = todbl(b.v);
        bool t;
        if (o == "<") t = x < y; else if (o == "<=") t = x <= y;
        else if (o == ">") t = x > y; else if (o == ">=") t = x >= y;
        else if (o == "==") t = x == y; else if (o == "!=") t = x != y;
        else if (o == "&&") t = (x != 0) && (y != 0);
        else if (o == "||") t = (x != 0) || (y != 0);
        else throw std::runtime_error("binary " + o);
        trace.push_back(t ? 'T' : 'F');
        return jc(T(t ? 1 : 0));
    }
    V bin(const std::string& o, const V& a, const V& b) {
        const V& big = a.shape ? a : b;
        V x(big.shape, big.r, big.c, N);
        for (long i = 0; i < x.size(); ++i)
            put(x, i, binary(o, jet(a, a.shape ? i : 0), jet(b, b.shape ? i : 0)));
        return x;
    }
    J powi(const J& a, long n) {
        if (n == 0) return jc(T(1));
        T p = T(1);                                     // x^(|n|-1)
        long m = n < 0 ? -n : n;
        for (long i = 1; i < m; ++i) p = p * a.v;
        if (n > 0) return lin1(p * a.v, a, T((double)n) * p);
        T f = T(1) / (p * a.v);
        return lin1(f, a, T((double)n) * f / a.v);
    }
    J prodn(const std::vector<J>& xs) {
        J r = jc(T(1));
        for (auto& x : xs) r = mul(r, x);
        return r;
    }
    // LU with partial pivoting on jets; returns pivots' product sign and factors in place
    using Mat = std::vector<std::vector<J>>;
    Mat tomat(const V& a) {
        Mat m(a.r);
        for (long i = 0; i < a.r; ++i) for (long j = 0; j < a.c; ++j) m[i].push_back(jet(a, i + j * a.r));
        return m;
    }
    // returns determinant as a product of pivots; B (if given) is replaced by A^{-1} B
    J lu(Mat A, Mat* B, std::vector<J>* piv, int* sgn) {
        long n = (long)A.size();
        int s = 1;
        J d = jc(T(1));
        for (long k = 0; k < n; ++k) {
            long p = k;
            for (long i = k + 1; i < n; ++i) if (fabsT(A[p][k].v) < fabsT(A[i][k].v)) p = i;
            if (p != k) { std::swap(A[p], A[k]); if (B) std::swap((*B)[p], (*B)[k]); s = -s; }
            if (A[k][k].v == T(0)) throw Discard("singular");
            d = mul(d, A[k][k]);
            if (piv) piv->push_back(A[k][k]);
            for (long i = k + 1; i < n; ++i) {
                J f = div(A[i][k], A[k][k]);
                for (long j = k; j < n; ++j) A[i][j] = sub(A[i][j], mul(f, A[k][j]));
                if (B) for (size_t j = 0; j < (*B)[i].size(); ++j) (*B)[i][j] = sub((*B)[i][j], mul(f, (*B)[k][j]));
            }
        }
        if (B) for (long k = n - 1; k >= 0; --k)
            for (size_t j = 0; j < (*B)[k].size(); ++j) {
                J x = (*B)[k][j];
                for (long i = k + 1; i < n; ++i) x = sub(x, mul(A[k][i], (*B)[i][j]));
                (*B)[k][j] = div(x, A[k][k]);
            }
        if (sgn) *sgn = s;
        if (s < 0) d = scale(d, T(-1));
        return d;
    }
    J logabsdet(const Mat& A, Mat* B) {
        std::vector<J> piv;
        lu(A, B, &piv, nullptr);
        J r = jc(T(0));
        for (auto& p : piv) {
            J q = p; if (todbl(q.v) < 0) q = scale(q, T(-1));
            r = add(r, jlog(q));
        }
        return r;
    }
    // symmetric positive definiteness by leading minors of the current values
    bool is_pd(const V& a) {
        long n = a.r;
        std::vector<std::vector<long double>> L(n, std::vector<long double>(n, 0));
        long double scale = 0;
        for (long i = 0; i < n; ++i) scale = std::max(scale, (long double)std::fabs((long double)todbl(a.v[i + i * n])));
        for (long j = 0; j < n; ++j) {
            long double d = todbl(a.v[j + j * n]);
            for (long k = 0; k < j; ++k) d -= L[j][k] * L[j][k];
            if (std::fabs(d) < 1e-9L * std::max(scale, (long double)1e-300)) throw Discard("semidefinite");
            if (!(d > 0)) { trace.push_back('N'); return false; }
            L[j][j] = std::sqrt(d);
            for (long i = j + 1; i < n; ++i) {
                long double x = todbl(a.v[i + j * n]);
                for (long k = 0; k < j; ++k) x -= L[i][k] * L[j][k];
                L[i][j] = x / L[j][j];
            }
        }
        trace.push_back('P');
        return true;
    }
    void need_sym(const V& a) {
        for (long i = 0; i < a.r; ++i) for (long j = 0; j < i; ++j) {
            auto x = todbl(a.v[i + j * a.r]), y = todbl(a.v[j + i * a.r]);
            if (std::fabs(x - y) > 1e-9 * (1 + std::fabs(x))) throw Discard("not symmetric");
        }
    }
    V scal(const J& j) { V x(0, 1, 1, N); put(x, 0, j); return x; }
    V neginf() { V x(0, 1, 1, N); x.v[0] = T(-std::numeric_limits<double>::infinity()); trace.push_back('I'); return x; }
    J at(const V& a, long i) { return jet(a, a.shape ? i : 0); }

    // the densities are allowed to be as inexact as if their arguments had been rounded
    J wob(J a) { if constexpr (std::is_same_v<T, Pert>) a.v = Pert::noisy(a.v.v); return a; }
    Mat wobm(Mat m) { for (auto& r : m) for (auto& x : r) x = wob(x); return m; }
    V stat(const std::string& f, std::vector<V>& a) {
        long n = 1;
        for (auto& x : a) if (x.shape) n = x.r;
        if (n == 0) {                                       // nothing to sum: left open for parameters outside of their domain
            bool ok = f != "bern" && f != "wishart" && a[2].shape != 2;
            if (f == "uniform" && a[1].shape == 0 && a[2].shape == 0) ok = todbl(a[1].v[0]) < todbl(a[2].v[0]);
            else if (f != "uniform" && a[2].shape == 0) ok = todbl(a[2].v[0]) > 0;
            for (auto& x : a) for (auto& t : x.v) if (std::isnan(todbl(t))) ok = false;
            if (!ok) throw Discard("empty density");
            return scal(jc(T(0)));
        }
        if (f == "bern") {
            J r = jc(T(0)); bool bad = false;
            n = a[0].size();
            for (long i = 0; i < n; ++i) {
                auto x = todbl(a[0].v[a[0].shape ? i : 0]);
                J p = at(a[1], i);
                auto pv = todbl(p.v);
                if (x == 1) { if (pv <= 0) bad = true; else if (pv < 1) r = add(r, jlog(p)); trace.push_back(pv <= 0 ? 'a' : pv < 1 ? 'b' : 'c'); }
                else if (x == 0) { if (pv >= 1) bad = true; else if (pv > 0) r = add(r, jlog(sub(jc(T(1)), wob(p)))); trace.push_back(pv <= 0 ? 'd' : pv < 1 ? 'e' : 'f'); }
                else bad = true;
            }
            return bad ? neginf() : scal(r);
        }
        if (f == "normal" && a[2].shape == 2) {
            need_sym(a[2]);
            if (!is_pd(a[2])) return neginf();
            long m = a[2].r;
            Mat d(m);
            for (long i = 0; i < m; ++i) d[i].push_back(sub(wob(at(a[0], i)), wob(at(a[1], i))));
            Mat y = d;
            J ld = logabsdet(wobm(tomat(a[2])), &y);
            J q = jc(T(0));
            for (long i = 0; i < m; ++i) q = add(q, mul(d[i][0], y[i][0]));
            return scal(scale(add(q, ld), T(-0.5)));
        }
        if (f == "normal") {
            J r = jc(T(0));
            for (long i = 0; i < n; ++i) {
                J s = at(a[2], i);
                bool ok = todbl(s.v) > 0;
                trace.push_back(ok ? 'p' : 'n');
                if (!ok) return neginf();
                J zt = div(sub(wob(at(a[0], i)), wob(at(a[1], i))), s);
                r = sub(r, add(scale(mul(zt, zt), T(0.5)), jlog(s)));
            }
            return scal(r);
        }
        if (f == "cauchy") {
            J r = jc(T(0));
            for (long i = 0; i < n; ++i) {
                J g = at(a[2], i);
                bool ok = todbl(g.v) > 0;
                trace.push_back(ok ? 'p' : 'n');
                if (!ok) return neginf();
                J d = sub(wob(at(a[0], i)), wob(at(a[1], i)));
                r = sub(r, jlog(add(g, div(mul(d, d), g))));
            }
            return scal(r);
        }
        if (f == "uniform") {
            J r = jc(T(0)); bool bad = false;
            for (long i = 0; i < n; ++i) {
                auto x = todbl(at(a[0], i).v);
                J lo = at(a[1], i), hi = at(a[2], i);
                bool ok = todbl(lo.v) < x && x < todbl(hi.v);
                trace.push_back(ok ? 'p' : 'n');
                if (!ok) { bad = true; continue; }
                r = sub(r, jlog(sub(wob(hi), wob(lo))));
            }
            return bad ? neginf() : scal(r);
        }
        if (f == "wishart") {
            need_sym(a[0]); need_sym(a[1]);
            long p = a[0].r;
            double nn = (double)todbl(a[2].v[0]);
            bool ok = is_pd(a[0]);
            ok = is_pd(a[1]) && ok;
            if (!ok || nn + 1 <= p) return neginf();
            Mat X = wobm(tomat(a[0])), Y = X;
            J lx = logabsdet(X, nullptr);
            J lv = logabsdet(wobm(tomat(a[1])), &Y);           // Y = V^{-1} X
            J tr = jc(T(0));
            for (long i = 0; i < p; ++i) tr = add(tr, Y[i][i]);
            return scal(sub(sub(scale(lx, T(0.5 * (nn - p - 1))), scale(tr, T(0.5))), scale(lv, T(0.5 * nn))));
        }
        throw std::runtime_error("stat " + f);
    }

    V withunit(int id, V x) {                 // a placeholder gets a column of its own
        const Obj& o = S.objs[id];
        for (long i = 0; i < x.size(); ++i) {
            T& t = x.grad(i)[o.col + i];
            t = t + T(1);
        }
        return x;
    }
    int target(const Sx& t) { return t.op() == "it" ? itobj(t) : (int)t.num(1); }

    double lo = 1, hi = 1;            // range of the non-zero ones
    V ev(const Sx& e) {
        V x = ev_(e);
        if (e.op() == "v" && S.objs[e.num(1)].dom == "nanint") return x;       // only compared, never computed with
        for (auto* w : {&x.v, &x.g}) for (auto& t : *w) {
            double d = std::fabs((double)todbl(t));
            if (!std::isfinite(d)) smooth = false;
            if (d != 0) { lo = std::min(lo, d); hi = std::max(hi, d); }
        }
        return x;
    }
    V ev_(const Sx& e) {
        const std::string& o = e.op();
        if (o == "v") return leaf((int)e.num(1));
        if (o == "el") { V a = leaf((int)e.num(1)); return slice(a, 0, S.idx[e.num(2)], 1); }
        if (o == "hd") { V a = leaf((int)e.num(1)); return slice(a, 1, 0, S.dims[e.num(2)]); }
        if (o == "tl") { V a = leaf((int)e.num(1)); long n = S.dims[e.num(2)]; return slice(a, 1, a.r - n, n); }
        if (o == "it") return leaf(itobj(e));
        if (o == "itprev") { if (it == 0) return leaf((int)e.num(2)); return leaf(S.banks[e.num(1)][it - 1]); }
        if (o == "itv") { double d = S.vbanks[e.num(1)][it]; return cst(0, 1, 1, &d); }
        if (o == "lit" || o == "int") { double d = e.dbl(1); return cst(0, 1, 1, &d); }
        if (o == "c") { const Const& c = S.consts[e.num(1)]; return cst(c.shape, c.r, c.c, c.v.data()); }
        if (o == "un") {
            V a = ev(e.k[2]);
            V x(a.shape, a.r, a.c, N);
            for (long i = 0; i < a.size(); ++i) put(x, i, unary(e.str(1), jet(a, i)));
            return x;
        }
        if (o == "bin") {
            V a = ev(e.k[2]); V b = ev(e.k[3]);
            return bin(e.str(1), a, b);
        }
        if (o == "if") {
            V c = ev(e.k[1]);
            bool t = todbl(c.v[0]) != 0;
            trace.push_back(t ? '1' : '0');
            return ev(e.k[t ? 2 : 3]);
        }
        if (o == "sum" || o == "prod" || o == "norm") {
            V a = ev(e.k[1]);
            J r = jc(T(o == "prod" ? 1 : 0));
            for (long i = 0; i < a.size(); ++i) {
                J x = jet(a, i);
                if (o == "sum") r = add(r, x);
                else if (o == "prod") r = mul(r, x);
                else r = add(r, mul(x, x));
            }
            return scal(r);
        }
        if (o == "pow") {
            V a = ev(e.k[2]);
            V x(a.shape, a.r, a.c, N);
            for (long i = 0; i < a.size(); ++i) put(x, i, powi(jet(a, i), e.num(1)));
            return x;
        }
        if (o == "dot") {
            V a = ev(e.k[1]), b = ev(e.k[2]);
            V x(b.shape == 1 ? 1 : 2, a.r, b.c, N);
            for (long i = 0; i < a.r; ++i) for (long j = 0; j < b.c; ++j) {
                J s = jc(T(0));
                for (long k = 0; k < a.c; ++k) s = add(s, mul(jet(a, i + k * a.r), jet(b, k + j * b.r)));
                put(x, i + j * a.r, s);
            }
            return x;
        }
        if (o == "tr") {
            V a = ev(e.k[1]);
            V x(2, a.c, a.r, N);
            for (long i = 0; i < a.r; ++i) for (long j = 0; j < a.c; ++j) put(x, j + i * a.c, jet(a, i + j * a.r));
            return x;
        }
        if (o == "det") { V a = ev(e.k[2]); return scal(lu(tomat(a), nullptr, nullptr, nullptr)); }
        if (o == "ldet") { V a = ev(e.k[2]); return scal(logabsdet(tomat(a), nullptr)); }
        if (o == "sit" || o == "pit" || o == "fe") {
            long n = o[0] == 'f' || e.str(1)[0] == 'b' ? (long)S.banks[std::atoi(e.str(1).c_str() + 1)].size()
                                                     : (long)S.vbanks[std::atoi(e.str(1).c_str() + 1)].size();
            int save = it;
            V r;
            for (long i = 0; i < n; ++i) {
                it = (int)i;
                V x = ev(e.k[2]);
                if (i == 0 || o == "fe") r = x;
                else r = bin(o == "sit" ? "+" : "*", r, x);
            }
            it = save;
            if (n == 0) return scal(jc(T(o == "pit" ? 1 : 0)));
            return r;
        }
        if (o == "stat") {
            std::vector<V> a;
            for (size_t i = 2; i < e.n(); ++i) {
                bool plain = (e.str(1) == "uniform" || e.str(1) == "bern") && (e.k[i].op() == "v" || e.k[i].op() == "c");   // may hold NaN: out of support
                a.push_back(plain ? ev_(e.k[i]) : ev(e.k[i]));
            }
            return stat(e.str(1), a);
        }
        if (o == "eq") {
            int id = target(e.k[1]);
            V x = ev(e.k[2]);
            x.shape = S.objs[id].shape;
            x = withunit(id, x);
            cur[id] = x;
            return x;
        }
        if (o == "op") {                      // (op += target rhs)
            int id = target(e.k[2]);
            V old = leaf(id);
            V r = ev(e.k[3]);
            V x = bin(e.str(1).substr(0, 1), old, r);
            cur[id] = x;
            return x;
        }
        if (o == "gl") { ev(e.k[1]); return ev(e.k[2]); }
        throw std::runtime_error("op " + o);
    }
};

// ---------------------------------------------------------------- reference result with tolerances
struct RefOut {
    int shape = 0; long r = 0, c = 0;
    std::vector<double> val, valtol;
    std::vector<double> grad, gtol;             // contraction with the seed, one per column
    std::vector<char> trace;
    std::map<int, std::vector<double>> fin, fintol;       // values of assigned variables after the forward pass
    bool finite = true;                         // value and gradient all finite
    bool neg_inf = false;                       // scalar -inf
    double lo = 1, hi = 1;                      // magnitudes of intermediate quantities
};

inline RefOut reference(const State& S, const Sx& ast, const std::vector<double>& seed, double noise = 0x1p-50)
{
    Eval<long double> E(S);
    Val<long double> x = E.ev(ast);
    RefOut R;
    R.shape = x.shape; R.r = x.r; R.c = x.c; R.trace = E.trace; R.lo = E.lo; R.hi = E.hi;
    long n = x.size(), N = S.ncol;
    auto sd = [&](long i) { return seed.empty() ? 1.0 : seed.size() == 1 ? seed[0] : seed[i]; };
    auto contract = [&](auto& v, auto zero, long k) {
        using T = decltype(zero);
        T s = zero;
        for (long i = 0; i < n; ++i) { T g = v.grad(i)[k]; if (!(g == T(0))) s = s + T(sd(i)) * g; }
        return s;
    };
    std::vector<long double> gl(N), gabs(N, 0);
    R.val.resize(n); R.valtol.assign(n, 0); R.grad.resize(N); R.gtol.assign(N, 0);
    for (long i = 0; i < n; ++i) { R.val[i] = (double)x.v[i]; if (!std::isfinite(R.val[i])) R.finite = false; }
    for (long k = 0; k < N; ++k) {
        gl[k] = contract(x, (long double)0, k);
        R.grad[k] = (double)gl[k];
        if (!std::isfinite(R.grad[k])) R.finite = false;
    }
    if (n == 1 && x.v[0] == -std::numeric_limits<long double>::infinity()) {      // a density out of support, not an overflow
        R.neg_inf = true;
        R.finite = true;
        for (double g : R.grad) if (!std::isfinite(g)) R.finite = false;
    }
    std::map<int, std::vector<long double>> spf;
    for (auto& kv : E.cur) for (auto t : kv.second.v) { R.fin[kv.first].push_back((double)t); spf[kv.first].push_back(0); }
    if (!R.finite || (!R.neg_inf && !E.smooth)) throw Discard("nonfinite");
    std::vector<long double> sv(n, 0), sg(N, 0);
    for (int run = 0; run < 4; ++run) {
        Pert::st() = 0x9E3779B97F4A7C15ull * (run + 1);
        Pert::mag() = noise;
        Eval<Pert> P(S);
        Val<Pert> y = P.ev(ast);
        if (P.trace != R.trace) throw Discard("unstable branch");
        for (long i = 0; i < n; ++i) {
            if (R.neg_inf) { if (!(y.v[i].v == R.val[i])) throw Discard("unstable -inf"); continue; }
            if (!std::isfinite(y.v[i].v)) throw Discard("overflow");
            sv[i] = std::max(sv[i], std::fabs(x.v[i] - (long double)y.v[i].v));
        }
        for (long k = 0; k < N; ++k) {
            Pert g = contract(y, Pert(0), k);
            if (!std::isfinite(g.v)) throw Discard("overflow");
            sg[k] = std::max(sg[k], std::fabs(gl[k] - (long double)g.v));
        }
        for (auto& kv : P.cur) {
            auto& a = E.cur[kv.first];
            for (size_t i = 0; i < kv.second.v.size(); ++i)
                spf[kv.first][i] = std::max(spf[kv.first][i], std::fabs(a.v[i] - (long double)kv.second.v[i].v));
        }
    }
    double f = noise / 0x1p-50;              // widening for lower precisions
    long double vm = 0, gm = 0;
    for (long i = 0; i < n; ++i) if (!R.neg_inf) vm = std::max(vm, std::fabs(x.v[i]));
    for (long k = 0; k < N; ++k) gm = std::max(gm, std::fabs(gl[k]));
    if (vm > 1e60L || gm > 1e60L) throw Discard("huge");
    // cancellation may leave something of the size of the largest intermediate's rounding error
    double floor_ = 1e-300;
    if (E.lo > 1e-8 && E.hi < 1e6) floor_ = 2e-15 * f * E.hi;
    for (long i = 0; i < n; ++i) {
        R.valtol[i] = (double)(64 * sv[i] + f * (1e-13L * std::fabs(R.neg_inf ? 0 : x.v[i]) + 1e-14L * (R.neg_inf ? 0 : vm))) + floor_;
        if (sv[i] > f * 1e-7L * vm) throw Discard("ill-conditioned value");
    }
    for (long k = 0; k < N; ++k) {
        R.gtol[k] = (double)(64 * sg[k] + f * (1e-13L * std::fabs(gl[k]) + 1e-14L * gm)) + floor_;
        if (sg[k] > f * 1e-7L * gm) throw Discard("ill-conditioned gradient");
    }
    for (auto& kv : R.fin) {
        long double m = 0;
        for (double t : kv.second) m = std::max(m, (long double)std::fabs(t));
        auto& ft = R.fintol[kv.first];
        for (size_t i = 0; i < kv.second.size(); ++i)
            ft.push_back((double)(64 * spf[kv.first][i] + f * 1e-13L * m) + floor_);
    }
    return R;
}
} // namespace hv
