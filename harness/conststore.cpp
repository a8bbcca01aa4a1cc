// Model-based histories over constants: made from every kind of source (arithmetic values, Eigen
// vectors, matrices, sub-expressions, views over caller memory, raw Eigen operands), folded,
// copied, moved, assigned and used in expressions while the memory they came from keeps changing.
// A constant keeps the value it was given; a constant view shows the memory it looks at; nobody
// writes to either. After every step the whole pool is compared with the model.
#include "choice.hpp"
#include "api.hpp"
#include <fastad>
#include <memory>
#include <map>
#include <string>
#include <cmath>
#include <cstdarg>
#include <unordered_set>
#include <chrono>
#include <fcntl.h>
#include <unistd.h>
using hv::Src;
using hv::Fail;
namespace {
[[noreturn]] void fail(const char* f, ...) {
    char b[600];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw Fail(b);
}
std::map<std::string, long> TAGS;
std::string LOG;
void log(const char* f, ...) {
    char b[200];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    LOG += b; LOG += "; ";
}
using VD = Eigen::VectorXd;
using MD = Eigen::MatrixXd;
using RM = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using V3 = Eigen::Vector3d;
template <class T, class Sh> using Cst = ad::core::Constant<T, Sh>;
template <class T, class Sh> using Cvw = ad::core::ConstantView<T, Sh>;

bool near(double a, double b, double scale) {
    if (a == b || (std::isnan(a) && std::isnan(b))) return true;
    return std::fabs(a - b) <= 1e-12 * (std::fabs(scale) + 1e-300);
}
// column-major model of a value
struct Model {
    std::vector<double> v; long r = 1, c = 1;
    double at(long i, long j) const { return v[(size_t)(i + j * r)]; }
};
template <class C> constexpr bool scl_v = std::is_same_v<typename C::shape_t, ad::scl>;

template <class C> void same(const C& c, const Model& m, const char* what, int id) {
    if ((long)c.rows() != m.r || (long)c.cols() != m.c || (long)c.size() != m.r * m.c)
        fail("%s %d: shape %ldx%ld (size %ld), expected %ldx%ld", what, id, (long)c.rows(), (long)c.cols(), (long)c.size(), m.r, m.c);
    if (&c.get() != &c.feval()) fail("%s %d: feval() is not the constant's value", what, id);
    auto cs = c.bind_cache_size(); auto ss = c.single_bind_cache_size();
    if (cs(0) || cs(1) || ss(0) || ss(1)) fail("%s %d: a constant asks for cache", what, id);
    for (long j = 0; j < m.c; ++j) for (long i = 0; i < m.r; ++i) {
        double w = m.at(i, j), g, d = (double)c.data()[i + j * m.r], e = (double)c.get((size_t)i, (size_t)j);
        if constexpr (scl_v<C>) g = (double)c.get(); else g = (double)c.get()(i, j);
        bool nan = std::isnan(w);
        auto eq = [&](double x) { return nan ? std::isnan(x) : x == w; };
        if (!eq(g)) fail("%s %d: get()(%ld,%ld) is %.17g, expected %.17g", what, id, i, j, g, w);
        if (!eq(d)) fail("%s %d: data()[%ld] is %.17g, expected %.17g", what, id, i + j * m.r, d, w);
        if (!eq(e)) fail("%s %d: get(%ld,%ld) is %.17g, expected %.17g", what, id, i, j, e, w);
    }
    c.beval(1.0);                                                   // does nothing
    double buf[2] = {7, 7}; ad::util::PtrPack<double> pp(buf, buf);
    auto e1 = c.bind_cache(pp); auto e2 = c.bind(pp);
    if (e1.val != buf || e1.adj != buf || e2.val != buf || e2.adj != buf || buf[0] != 7 || buf[1] != 7) fail("%s %d: binding a constant consumes cache", what, id);
}

struct Source { std::unique_ptr<MD> x; };                          // caller memory, changed at will
template <class C> struct Item { C c; Model m; };
template <class C> struct ViewItem { C c; int src; long off, r, k; };

struct World {
    Src& s;
    std::map<int, Source> src;
    std::map<int, MD> srcm;                                        // shadow of every source
    std::map<int, Item<Cst<double, ad::scl>>> cs;
    std::map<int, Item<Cst<double, ad::vec>>> cv;
    std::map<int, Item<Cst<double, ad::mat>>> cm;
    std::map<int, Item<Cst<int, ad::scl>>> is;
    std::map<int, Item<Cst<int, ad::vec>>> iv;
    std::map<int, Item<Cst<int, ad::mat>>> im;
    std::map<int, Item<Cst<bool, ad::scl>>> bs;
    std::map<int, Item<Cst<bool, ad::vec>>> bv;
    std::map<int, ViewItem<Cvw<double, ad::vec>>> wv;
    std::map<int, ViewItem<Cvw<double, ad::mat>>> wm;
    int next = 0; long steps = 0; bool changed = false, nontriv = false;
    explicit World(Src& s_) : s(s_) {}

    double val() {
        switch (s.draw(10)) {
            case 0: return 0;
            case 1: return -(double)s.range(1, 40) / 8 * 1e3;
            default: return (double)s.range(-64, 64) / 16;
        }
    }
    int sid() { if (src.empty()) return -1; auto it = src.begin(); std::advance(it, s.draw(src.size())); return it->first; }
    template <class M> int any(const M& m) { if (m.empty()) return -1; auto it = m.begin(); std::advance(it, s.draw(m.size())); return it->first; }
    template <class M> void drop(M& m) { if (m.size() > 7) m.erase(m.begin()); }
    template <class E> static Model model(const E& e) {             // plain loops over a plain copy
        Model m; m.r = e.rows(); m.c = e.cols();
        for (long j = 0; j < m.c; ++j) for (long i = 0; i < m.r; ++i) m.v.push_back((double)e.coeff(i, j));
        return m;
    }
    Model vmodel(int id) { auto& w = wv.at(id); Model m; m.r = w.r; for (long i = 0; i < w.r; ++i) m.v.push_back(srcm.at(w.src).data()[w.off + i]); return m; }
    Model mmodel(int id) { auto& w = wm.at(id); Model m; m.r = w.r; m.c = w.k; for (long i = 0; i < w.r * w.k; ++i) m.v.push_back(srcm.at(w.src).data()[w.off + i]); return m; }

    void check() {
        for (auto& x : src) if (!(*x.second.x == srcm.at(x.first))) fail("the memory of source %d was written to", x.first);
        auto all = [&](auto& pool, const char* what) { for (auto& x : pool) same(x.second.c, x.second.m, what, x.first); };
        all(cs, "constant scalar"); all(cv, "constant vector"); all(cm, "constant matrix");
        all(is, "integer constant"); all(iv, "integer constant vector"); all(im, "integer constant matrix"); all(bs, "logical constant"); all(bv, "logical constant vector");
        for (auto& x : wv) { same(x.second.c, vmodel(x.first), "constant view", x.first); if (x.second.c.data() != src.at(x.second.src).x->data() + x.second.off) fail("constant view %d does not look at the caller's memory", x.first); }
        for (auto& x : wm) { same(x.second.c, mmodel(x.first), "constant view", x.first); if (x.second.c.data() != src.at(x.second.src).x->data() + x.second.off) fail("constant view %d does not look at the caller's memory", x.first); }
    }
    template <class Pool, class C> void put(Pool& p, C&& c, Model m, const char* how) {
        int id = next++;
        p.emplace(id, Item<std::decay_t<C>>{c, std::move(m)});
        log("%d=%s", id, how);
        drop(p);
    }
    // a folded constant: compared within rounding, then it must stay exactly what it is
    template <class Pool, class C> void folded(Pool& p, const C& c, Model m, const char* how) {
        if ((long)c.rows() != m.r || (long)c.cols() != m.c) fail("%s of constants has shape %ldx%ld, expected %ldx%ld", how, (long)c.rows(), (long)c.cols(), m.r, m.c);
        for (long j = 0; j < m.c; ++j) for (long i = 0; i < m.r; ++i) {
            double g = (double)c.data()[i + j * m.r];
            double& w = m.v[(size_t)(i + j * m.r)];
            if (!near(g, w, w)) fail("%s of constants: element (%ld,%ld) is %.17g, expected %.17g", how, i, j, g, w);
            w = g;
        }
        put(p, c, m, how); TAGS["folded"]++; nontriv = true;
    }
    void source() {
        bool big = s.draw(20) == 19;
        auto m = std::make_unique<MD>(s.range(1, big ? 24 : 5), s.range(1, big ? 9 : 4));
        for (long i = 0; i < m->size(); ++i) m->data()[i] = val();
        int id = next++;
        srcm[id] = *m; src[id].x = std::move(m);
        log("%d=source %ldx%ld", id, (long)srcm[id].rows(), (long)srcm[id].cols());
    }
    void make() {
        int id = sid(); if (id < 0) return source();
        MD& m = *src.at(id).x;
        long r = m.rows(), c = m.cols(), j = (long)s.draw((uint64_t)c);
        switch (s.draw(26)) {
            case 0: { double t = val(); put(cs, ad::constant(t), Model{{t}}, "constant(double)"); break; }
            case 1: { int t = (int)s.range(-9, 9); put(is, ad::constant(t), Model{{(double)t}}, "constant(int)"); break; }
            case 2: { bool t = s.draw(2); put(bs, ad::constant(t), Model{{(double)t}}, "constant(bool)"); break; }
            case 3: { VD v = m.col(j); put(cv, ad::constant(v), model(v), "constant(VectorXd)"); v.setConstant(77); break; }
            case 4: put(cv, ad::constant(m.col(j)), model(m.col(j).eval()), "constant(column)"); break;
            case 5: { VD v = m.col(j); long k = s.range(1, r); put(cv, ad::constant(v.head(k)), model(v.head(k).eval()), "constant(head)"); break; }
            case 6: { VD v = m.col(j); long k = s.range(1, r); put(cv, ad::constant(v.tail(k)), model(v.tail(k).eval()), "constant(tail)"); break; }
            case 7: { VD v = m.col(j); put(cv, ad::constant(v + v), model((2 * v).eval()), "constant(sum)"); break; }
            case 8: { V3 v; for (int i = 0; i < 3; ++i) v(i) = val(); put(cv, ad::constant(v), model(v), "constant(Vector3d)"); v.setZero(); break; }
            case 9: put(cv, ad::constant(m.row(0).transpose()), model(m.row(0).transpose().eval()), "constant(row transposed)"); break;
            case 10: put(cv, ad::constant(m.col(j).reverse()), model(m.col(j).reverse().eval()), "constant(reversed column)"); break;
            case 11: { MD t = m; put(cm, ad::constant(t), model(m), "constant(MatrixXd)"); t.setConstant(77); break; }
            case 12: put(cm, ad::constant(m), model(m), "constant(source)"); break;
            case 13: { RM t = m; put(cm, ad::constant(t), model(m), "constant(row major)"); t.setZero(); break; }
            case 14: { long p = s.range(1, r), q = s.range(1, c), a = (long)s.draw((uint64_t)(r - p + 1)), b = (long)s.draw((uint64_t)(c - q + 1)); put(cm, ad::constant(m.block(a, b, p, q)), model(m.block(a, b, p, q).eval()), "constant(block)"); break; }
            case 15: put(cm, ad::constant(m.transpose()), model(m.transpose().eval()), "constant(transposed)"); break;
            case 16: { MD e = m - 2 * m; put(cm, ad::constant(m - 2 * m), model(e), "constant(difference)"); break; }
            case 17: { Eigen::Map<const MD> v(m.data(), r, c); put(cm, ad::constant(v), model(m), "constant(Map)"); break; }
            case 18: { Eigen::VectorXi v(r); for (long i = 0; i < r; ++i) v(i) = (int)s.range(-9, 9); put(iv, ad::constant(v), model(v), "constant(VectorXi)"); v.setZero(); break; }
            case 19: { Eigen::MatrixXi v(r, c); for (long i = 0; i < r * c; ++i) v.data()[i] = (int)s.range(-9, 9); put(im, ad::constant(v), model(v), "constant(MatrixXi)"); v.setZero(); break; }
            case 20: case 21: case 22: {
                long n = r * c, off = (long)s.draw((uint64_t)n), k = s.range(1, n - off);
                int w = next++;
                if (k == 1 && s.draw(2)) k = n - off;
                wv.emplace(w, ViewItem<Cvw<double, ad::vec>>{ad::constant_view(m.data() + off, (size_t)k), id, off, k, 1});
                log("%d=view of %d at %ld, length %ld", w, id, off, k); TAGS["view"]++; drop(wv);
                break;
            }
            default: {
                long n = r * c, off = (long)s.draw((uint64_t)n), p = s.range(1, n - off), q = s.range(1, (n - off) / p);
                int w = next++;
                wm.emplace(w, ViewItem<Cvw<double, ad::mat>>{ad::constant_view(m.data() + off, (size_t)p, (size_t)q), id, off, p, q});
                log("%d=view of %d at %ld, %ldx%ld", w, id, off, p, q); TAGS["view"]++; drop(wm);
            }
        }
    }
    template <class Pool> void shuffle(Pool& p) {                   // copy, move, assign
        int id = any(p); if (id < 0) return;
        auto& it = p.at(id);
        using C = std::decay_t<decltype(it.c)>;
        switch (s.draw(5)) {
            case 0: case 1: { C k(it.c); put(p, k, it.m, "copy"); break; }
            case 2: { C k(it.c); C k2(std::move(k)); put(p, std::move(k2), it.m, "moved copy"); break; }
            case 3: { int to = any(p); auto& t = p.at(to); t.c = it.c; t.m = Model(it.m); log("%d=%d assigned", to, id); TAGS["assign"]++; nontriv = true; break; }
            default: { int to = any(p); if (to == id) break; auto& t = p.at(to); std::swap(t.c, it.c); std::swap(t.m, it.m); log("swap %d %d", to, id); nontriv = true; }
        }
    }
    // operators over constants only
    template <class C> void fold1(const C& c, const Model& m) {
        auto map = [&](auto f) { Model o = m; for (auto& x : o.v) x = f(x); return o; };
        auto& pool = [&]() -> auto& { if constexpr (scl_v<C>) return cs; else if constexpr (std::is_same_v<typename C::shape_t, ad::vec>) return cv; else return cm; }();
        double mx = 0; for (double x : m.v) mx = std::max(mx, std::fabs(x));
        if (mx > 700) return;                                       // stay away from overflow
        switch (s.draw(16)) {
            case 0: folded(pool, ad::sin(c), map([](double x) { return std::sin(x); }), "sin"); break;
            case 1: folded(pool, ad::cos(c), map([](double x) { return std::cos(x); }), "cos"); break;
            case 2: folded(pool, ad::exp(c), map([](double x) { return std::exp(x); }), "exp"); break;
            case 3: folded(pool, -c, map([](double x) { return -x; }), "negation"); break;
            case 4: folded(pool, ad::tanh(c), map([](double x) { return std::tanh(x); }), "tanh"); break;
            case 5: folded(pool, ad::erf(c), map([](double x) { return std::erf(x); }), "erf"); break;
            case 6: folded(pool, ad::pow<2>(c), map([](double x) { return x * x; }), "pow<2>"); break;
            case 7: folded(pool, ad::pow<3>(c), map([](double x) { return x * x * x; }), "pow<3>"); break;
            case 8: folded(pool, c * 2.5, map([](double x) { return x * 2.5; }), "c * 2.5"); break;
            case 9: folded(pool, 1.5 - c, map([](double x) { return 1.5 - x; }), "1.5 - c"); break;
            case 10: folded(pool, c / 3, map([](double x) { return x / 3; }), "c / 3"); break;
            case 11: { Model o; double t = 0; for (double x : m.v) t += x; double a = 0; for (double x : m.v) a += std::fabs(x); auto r = ad::sum(c); if (!near(r.get(), t, a)) fail("sum of a constant is %.17g, expected %.17g", (double)r.get(), t); put(cs, r, Model{{(double)r.get()}}, "sum"); break; }
            case 12: { double t = 1; for (double x : m.v) t *= x; folded(cs, ad::prod(c), Model{{t}}, "prod"); break; }
            case 13: if constexpr (!scl_v<C>) { double t = 0; for (double x : m.v) t += x * x; auto r = ad::norm(c); if (!near(r.get(), t, t)) fail("norm of a constant is %.17g, expected %.17g", (double)r.get(), t); put(cs, r, Model{{(double)r.get()}}, "norm"); } break;
            case 14: if constexpr (!scl_v<C>) { Model o; o.r = m.c; o.c = m.r; for (long i = 0; i < m.r; ++i) for (long j = 0; j < m.c; ++j) o.v.push_back(m.at(i, j)); folded(cm, ad::transpose(c), o, "transpose"); } break;
            default: {
                if constexpr (std::is_same_v<typename C::shape_t, ad::vec>) { Model o = map([](double x) { return x < 0.5 ? 1. : 0.; }); folded(bv, c < 0.5, o, "c < 0.5"); }
                else if constexpr (scl_v<C>) { Model o = map([](double x) { return x >= 0.5 ? 1. : 0.; }); folded(bs, c >= 0.5, o, "c >= 0.5"); }
            }
        }
    }
    template <class A, class B> void fold2(const A& a, const Model& ma, const B& b, const Model& mb) {
        bool bc = scl_v<A> || scl_v<B>;
        if (!bc && (ma.r != mb.r || ma.c != mb.c)) return;
        const Model& big = scl_v<A> ? mb : ma;
        auto zip = [&](auto f) { Model o = big; for (size_t i = 0; i < o.v.size(); ++i) o.v[i] = f(ma.v[scl_v<A> ? 0 : i], mb.v[scl_v<B> ? 0 : i]); return o; };
        auto& pool = [&]() -> auto& { using S = std::conditional_t<scl_v<A>, typename B::shape_t, typename A::shape_t>; if constexpr (std::is_same_v<S, ad::scl>) return cs; else if constexpr (std::is_same_v<S, ad::vec>) return cv; else return cm; }();
        switch (s.draw(5)) {
            case 0: folded(pool, a + b, zip([](double x, double y) { return x + y; }), "a + b"); break;
            case 1: folded(pool, a - b, zip([](double x, double y) { return x - y; }), "a - b"); break;
            case 2: { double mx = 0; for (double x : ma.v) mx = std::max(mx, std::fabs(x)); for (double x : mb.v) mx = std::max(mx, std::fabs(x)); if (mx < 1e100) folded(pool, a * b, zip([](double x, double y) { return x * y; }), "a * b"); break; }
            case 3: { bool ok = true; for (double x : mb.v) if (std::fabs(x) < 1e-3) ok = false; if (ok) folded(pool, a / b, zip([](double x, double y) { return x / y; }), "a / b"); break; }
            default:
                if constexpr (std::is_same_v<typename A::shape_t, typename B::shape_t> && std::is_same_v<A, B>) {
                    int k = any(bs);
                    if (k >= 0) folded(pool, ad::if_else(bs.at(k).c, a, b), bs.at(k).m.v[0] != 0 ? ma : mb, "if_else");
                }
        }
    }
    // next to a variable: value and gradient
    template <class C> void use(const C& c, const Model& m) {
        for (double x : m.v) if (!(std::fabs(x) < 1e6)) return;
        using S = typename C::shape_t;
        long n = m.r * m.c;
        std::vector<double> x((size_t)n), xa((size_t)n, 0.);
        for (auto& t : x) t = (double)s.range(-32, 32) / 8;
        ad::VarView<double, S> v(x.data(), xa.data(), (size_t)m.r, (size_t)m.c);
        auto done = [&](double got, double want, double mag, auto grad, const char* how) {
            if (!near(got, want, mag)) fail("%s evaluates to %.17g, expected %.17g", how, got, want);
            for (long i = 0; i < n; ++i) { double g = grad(i); if (!near(xa[(size_t)i], g, std::fabs(g) + 1e-6 * mag)) fail("%s: derivative %ld is %.17g, expected %.17g", how, i, xa[(size_t)i], g); }
            log("%s", how); TAGS["used"]++; nontriv = true;
        };
        auto run = [&](auto&& e) { if constexpr (ad::util::is_scl_v<std::decay_t<decltype(e)>>) { auto b = ad::bind(e); return (double)ad::autodiff(b); } else { auto b = ad::bind(ad::sum(e)); return (double)ad::autodiff(b); } };
        double w = 0, mag = 0;
        switch (s.draw(5)) {
            case 0: for (long i = 0; i < n; ++i) { w += x[i] * m.v[i]; mag += std::fabs(x[i] * m.v[i]); } done(run(v * c), w, mag, [&](long i) { return m.v[i]; }, "sum(x * c)"); break;
            case 1: for (long i = 0; i < n; ++i) { w += m.v[i] * x[i]; mag += std::fabs(x[i] * m.v[i]); } done(run(c * v), w, mag, [&](long i) { return m.v[i]; }, "sum(c * x)"); break;
            case 2: for (long i = 0; i < n; ++i) { w += m.v[i] - x[i]; mag += std::fabs(x[i]) + std::fabs(m.v[i]); } done(run(c - v), w, mag, [](long) { return -1.; }, "sum(c - x)"); break;
            case 3: for (long i = 0; i < n; ++i) { double p = m.v[i] * x[i]; w += p * p; mag += p * p; } done(run(ad::pow<2>(c * v)), w, mag, [&](long i) { return 2 * m.v[i] * m.v[i] * x[i]; }, "sum(pow<2>(c * x))"); break;
            default:
                if constexpr (std::is_same_v<S, ad::mat>) {
                    std::vector<double> y((size_t)m.c), ya((size_t)m.c, 0.); for (auto& t : y) t = (double)s.range(-32, 32) / 8;
                    ad::VarView<double, ad::vec> u(y.data(), ya.data(), (size_t)m.c, 1);
                    for (long j = 0; j < m.c; ++j) for (long i = 0; i < m.r; ++i) { w += m.at(i, j) * y[j]; mag += std::fabs(m.at(i, j) * y[j]); }
                    double got = run(ad::dot(c, u));
                    if (!near(got, w, mag)) fail("sum(dot(C, x)) evaluates to %.17g, expected %.17g", got, w);
                    for (long j = 0; j < m.c; ++j) { double g = 0, a = 0; for (long i = 0; i < m.r; ++i) { g += m.at(i, j); a += std::fabs(m.at(i, j)); } if (!near(ya[j], g, a)) fail("sum(dot(C, x)): derivative %ld is %.17g, expected %.17g", j, ya[j], g); }
                    log("sum(dot(C, x))"); nontriv = true;
                }
        }
    }
    // raw Eigen operands: read when the expression is written down
    void raw() {
        int id = sid(); if (id < 0) return;
        MD& m = *src.at(id).x;
        long r = m.rows(), c = m.cols(), j = (long)s.draw((uint64_t)c);
        auto go = [&](auto&& build, const Model& k, auto shape) {
            using S = decltype(shape);
            long n = k.r * k.c;
            std::vector<double> x((size_t)n), xa((size_t)n, 0.);
            for (auto& t : x) t = (double)s.range(-32, 32) / 8;
            ad::VarView<double, S> v(x.data(), xa.data(), (size_t)k.r, (size_t)k.c);
            auto e = ad::bind(ad::sum(build(v)));                   // temporaries of the operand are gone after this
            double got = ad::autodiff(e), w = 0, mag = 0;
            for (long i = 0; i < n; ++i) { w += x[i] * k.v[i]; mag += std::fabs(x[i] * k.v[i]); }
            if (!near(got, w, mag)) fail("sum(x * raw operand) evaluates to %.17g, expected %.17g", got, w);
            for (long i = 0; i < n; ++i) if (xa[i] != k.v[i]) fail("sum(x * raw operand): derivative %ld is %.17g, expected %.17g", i, xa[i], k.v[i]);
            log("raw operand"); TAGS["raw"]++; nontriv = true;
        };
        switch (s.draw(9)) {
            case 0: { V3 t; for (int i = 0; i < 3; ++i) t(i) = val(); go([&](auto& v) { return v * t; }, model(t), ad::vec{}); break; }
            case 1: { VD t = m.col(j); go([&](auto& v) { return t * v; }, model(t), ad::vec{}); break; }
            case 2: go([&](auto& v) { return v * m.row(0).transpose(); }, model(m.row(0).transpose().eval()), ad::vec{}); break;
            case 3: { MD t = m; go([&](auto& v) { auto e = v * t; t.setConstant(5); return e; }, model(m), ad::mat{}); break; }
            case 4: { RM t = m; go([&](auto& v) { return v * t; }, model(m), ad::mat{}); break; }
            case 5: go([&](auto& v) { return (m + m) * v; }, model((2 * m).eval()), ad::mat{}); break;
            case 6: { long p = s.range(1, r), q = s.range(1, c); go([&](auto& v) { return v * m.block(r - p, c - q, p, q); }, model(m.block(r - p, c - q, p, q).eval()), ad::mat{}); break; }
            case 7: { double t = val(); Model k; k.r = r; k.v.assign((size_t)r, t); go([&](auto& v) { double d = t; return v * d; }, k, ad::vec{}); break; }
            default: { int t = (int)s.range(-9, 9); Model k; k.r = r; k.c = c; k.v.assign((size_t)(r * c), t); go([&](auto& v) { return t * v; }, k, ad::mat{}); }
        }
    }
    void step() {
        ++steps;
        uint64_t kind = s.draw(16);
        if (src.empty() || (kind == 0 && src.size() < 6)) return source();
        auto f1 = [&](auto& p) { int i = any(p); if (i >= 0) { auto it = p.at(i); fold1(it.c, it.m); } };
        auto f2 = [&](auto& p, auto& q) { int i = any(p), k = any(q); if (i >= 0 && k >= 0) { auto a = p.at(i); auto b = q.at(k); fold2(a.c, a.m, b.c, b.m); } };
        auto u = [&](auto& p) { int i = any(p); if (i >= 0) use(p.at(i).c, p.at(i).m); };
        switch (kind) {
            case 1: case 2: case 3: case 4: make(); break;
            case 5: case 6: {                                       // the caller changes the memory
                int id = sid(); MD& m = *src.at(id).x;
                if (s.draw(3)) { long i = (long)s.draw((uint64_t)m.size()); srcm[id].data()[i] = m.data()[i] = val(); }
                else { m.array() += 1; srcm[id] = m; }
                log("write to source %d", id); changed = true; TAGS["mutate"]++;
                if (!wv.empty() || !wm.empty() || !cv.empty() || !cm.empty()) nontriv = true;
                break;
            }
            case 7: {
                switch (s.draw(8)) {
                    case 0: shuffle(cs); break; case 1: case 2: shuffle(cv); break; case 3: case 4: shuffle(cm); break;
                    case 5: shuffle(iv); break; case 6: shuffle(is); break; default: shuffle(bv);
                }
                break;
            }
            case 8: {                                               // copies of views look at the same memory
                if (s.draw(2)) { int i = any(wv); if (i >= 0) { auto k(wv.at(i)); wv.emplace(next, k); log("%d=copy of view %d", next, i); next++; drop(wv); } }
                else { int i = any(wm); if (i >= 0) { auto k(wm.at(i)); wm.emplace(next, k); log("%d=copy of view %d", next, i); next++; drop(wm); } }
                break;
            }
            case 9: { int id = sid(); if (src.size() < 2) break;   // a source dies with the views into it; constants stay
                for (auto i = wv.begin(); i != wv.end();) i = i->second.src == id ? wv.erase(i) : std::next(i);
                for (auto i = wm.begin(); i != wm.end();) i = i->second.src == id ? wm.erase(i) : std::next(i);
                src.erase(id); srcm.erase(id); log("destroy source %d", id); TAGS["source_destroyed"]++; break; }
            case 10: case 11:
                switch (s.draw(5)) {
                    case 0: f1(cs); break; case 1: f1(cv); break; case 2: f1(cm); break;
                    case 3: { int i = any(wv); if (i >= 0) fold1(wv.at(i).c, vmodel(i)); break; }
                    default: { int i = any(wm); if (i >= 0) fold1(wm.at(i).c, mmodel(i)); }
                }
                break;
            case 12:
                switch (s.draw(8)) {
                    case 0: f2(cs, cs); break; case 1: f2(cs, cv); break; case 2: f2(cv, cv); break; case 3: f2(cv, cs); break;
                    case 4: f2(cm, cm); break; case 5: f2(cm, cs); break;
                    case 6: { int i = any(wv), k = any(cv); if (i >= 0 && k >= 0) { auto b = cv.at(k); fold2(wv.at(i).c, vmodel(i), b.c, b.m); } break; }
                    default: { int i = any(wm), k = any(cs); if (i >= 0 && k >= 0) { auto b = cs.at(k); fold2(b.c, b.m, wm.at(i).c, mmodel(i)); } }
                }
                break;
            case 13: raw(); break;
            default:
                switch (s.draw(6)) {
                    case 0: u(cs); break; case 1: u(cv); break; case 2: u(cm); break; case 3: u(is); break;
                    case 4: { int i = any(wv); if (i >= 0) use(wv.at(i).c, vmodel(i)); break; }
                    default: { int i = any(wm); if (i >= 0) use(wm.at(i).c, mmodel(i)); }
                }
        }
    }
};
struct Out { bool nt; long evals; };
Out run_case(Src& s) {
    LOG.clear();
    World w(s);
    int n = 6 + (int)s.draw(40);
    for (int i = 0; i < n; ++i) { w.step(); w.check(); }
    return {w.nontriv, w.steps};
}
} // namespace
#include "history_main.hpp"
