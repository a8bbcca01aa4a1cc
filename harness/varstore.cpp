// Model-based histories over variable storage: owning variables, views over caller memory,
// sub-views, copies, moves, containers, rebinding. After every step the whole pool is compared
// with a model in which each owner has its own storage and each view is a window into one.
#include "choice.hpp"
#include "api.hpp"
#include <fastad>
#include <memory>
#include <list>
#include <set>
#include <map>
#include <string>
#include <cstdarg>
#include <cstring>
#include <unordered_set>
#include <chrono>
#include <fcntl.h>
#include <unistd.h>
using hv::Src;
using hv::Fail;
namespace {
[[noreturn]] void fail(const char* f, ...) {
    char b[600];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw Fail(b);
}
std::map<std::string, long> TAGS;
std::string LOG;
void log(const char* f, ...) {
    char b[200];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    LOG += b; LOG += "; ";
}

template <class T> struct Store {                 // model of one block of memory
    std::vector<T> v, a;
    Store(size_t n) : v(n, T(0)), a(n, T(0)) {}
};
template <class T> using SP = std::shared_ptr<Store<T>>;
template <class T, class Sh> struct Owner {       // real owner + its model
    std::unique_ptr<ad::Var<T, Sh>> x;            // heap, so that destruction is visible to ASan
    SP<T> m;
    long r, c;
    bool moved = false;                           // moved from: only destruction and assignment are allowed
};
template <class T, class Sh> struct View {
    ad::VarView<T, Sh> x;
    SP<T> m;
    long off, r, c;
    int id = -1;                                  // owner it looks into (-1: caller memory); dies with it
};
template <class T> struct Kept {                  // a bound expression kept alive: 2 * sum(x)
    std::function<double()> run;
    SP<T> m; long off, n; int id;
};
template <class T> struct Ext { SP<T> m; std::unique_ptr<T[]> v, a; };

template <class T, class Sh> struct World {
    static constexpr int K = std::is_same_v<Sh, ad::scl> ? 0 : std::is_same_v<Sh, ad::vec> ? 1 : 2;
    using VarT = ad::Var<T, Sh>;
    using ViewT = ad::VarView<T, Sh>;
    using SubT = ad::VarView<T, ad::scl>;
    Src& s;
    std::map<int, Owner<T, Sh>> own;
    std::vector<View<T, Sh>> views;
    std::vector<View<T, ad::scl>> els;            // elements of vectors
    std::vector<Kept<T>> kept;
    std::vector<Ext<T>> ext;
    std::vector<VarT> vecs;                       // owners living in a container that reallocates
    std::vector<SP<T>> vecm;
    std::vector<std::pair<long, long>> vecsh;
    int next = 0;
    long steps = 0, effects = 0;
    bool nontriv = false;
    explicit World(Src& s_) : s(s_) {}

    T val() { return (T)s.range(-64, 64) / (T)8; }
    static VarT make(long r, long c) {
        (void)r; (void)c;
        if constexpr (K == 0) return VarT();
        else if constexpr (K == 1) return VarT((size_t)r);
        else return VarT((size_t)r, (size_t)c);
    }
    static VarT by_value(const VarT& x) { VarT y(x); return y; }            // out of a function
    static VarT pass(VarT x) { return x; }
    template <class X> static T& cell(X& x, long i, long r) {
        if constexpr (K == 0) { (void)i; (void)r; return x.get(); }
        else return x.get((size_t)(i % r), (size_t)(i / r));
    }
    template <class X> static T& cella(X& x, long i, long r) {
        if constexpr (K == 0) { (void)i; (void)r; return x.get_adj(); }
        else return x.get_adj((size_t)(i % r), (size_t)(i / r));
    }
    template <class X> static void same(X& x, const Store<T>& m, long off, long r, long c, const char* what, int id) {
        const X& cx = x;
        if ((long)x.rows() != r || (long)x.cols() != c || (long)x.size() != r * c)
            fail("%s %d: shape %ldx%ld (size %ld), expected %ldx%ld", what, id, (long)x.rows(), (long)x.cols(), (long)x.size(), r, c);
        for (long i = 0; i < r * c; ++i) {
            if (!(x.data()[i] == m.v[off + i])) fail("%s %d: value[%ld] is %g, expected %g", what, id, i, (double)x.data()[i], (double)m.v[off + i]);
            if (!(x.data_adj()[i] == m.a[off + i])) fail("%s %d: adjoint[%ld] is %g, expected %g", what, id, i, (double)x.data_adj()[i], (double)m.a[off + i]);
            const T *pv, *pa;
            if constexpr (std::is_same_v<typename X::shape_t, ad::scl>) { pv = &cx.get(); pa = &cx.get_adj(); }
            else { pv = &cx.get((size_t)(i % r), (size_t)(i / r)); pa = &cx.get_adj((size_t)(i % r), (size_t)(i / r)); }
            if (pv != x.data() + i || pa != x.data_adj() + i) fail("%s %d: get() does not look at data()", what, id);
            if (cx.data() != x.data() || cx.data_adj() != x.data_adj()) fail("%s %d: const access looks elsewhere", what, id);
        }
        if constexpr (!std::is_same_v<typename X::shape_t, ad::scl>) {
            if (cx.get().data() != cx.data() || (long)cx.get().size() != r * c || cx.get_adj().data() != cx.data_adj() || (long)cx.get_adj().rows() != r)
                fail("%s %d: get() is not the whole variable", what, id);
        }
        if (&cx.feval() != &cx.get()) fail("%s %d: feval() is not the value", what, id);
    }
    void check() {
        std::map<const T*, int> seen;
        auto claim = [&](const T* p, int id) {
            if (p && !seen.emplace(p, id).second) fail("owners %d and %d share memory", id, seen[p]);
        };
        for (auto& o : own) {
            if (o.second.moved) continue;
            same(*o.second.x, *o.second.m, 0, o.second.r, o.second.c, "owner", o.first);
            claim(o.second.x->data(), o.first); claim(o.second.x->data_adj(), o.first);
        }
        for (size_t i = 0; i < vecs.size(); ++i) {
            same(vecs[i], *vecm[i], 0, vecsh[i].first, vecsh[i].second, "container element", (int)i);
            claim(vecs[i].data(), 1000 + (int)i); claim(vecs[i].data_adj(), 1000 + (int)i);
        }
        for (size_t i = 0; i < views.size(); ++i) same(views[i].x, *views[i].m, views[i].off, views[i].r, views[i].c, "view", (int)i);
        for (size_t i = 0; i < els.size(); ++i) same(els[i].x, *els[i].m, els[i].off, 1, 1, "element view", (int)i);
        for (auto& e : ext) for (size_t i = 0; i < e.m->v.size(); ++i)
            if (!(e.v[i] == e.m->v[i]) || !(e.a[i] == e.m->a[i])) fail("caller memory element %zu is (%g, %g), expected (%g, %g)", i, (double)e.v[i], (double)e.a[i], (double)e.m->v[i], (double)e.m->a[i]);
    }
    std::pair<long, long> shape() {
        if (K == 0) return {1, 1};
        long z = (long)s.draw(48), big = z == 47 ? 300 : z >= 44 ? 20 : 5;
        if (K == 1) return {s.range(1, big), 1};
        if (big == 300) big = 40;
        long r = s.range(1, big);
        return {r, s.range(1, big == 40 ? 20 : 4)};
    }
    int pick() {                                  // an owner that may be read
        std::vector<int> ids;
        for (auto& o : own) if (!o.second.moved) ids.push_back(o.first);
        return ids.empty() ? -1 : ids[s.draw(ids.size())];
    }
    void forget(int id) {
        std::vector<View<T, Sh>> k; for (auto& v : views) if (v.id != id) k.push_back(v);
        views.clear(); for (auto& v : k) views.push_back(v);
        std::vector<View<T, ad::scl>> k2; for (auto& v : els) if (v.id != id) k2.push_back(v);
        els.clear(); for (auto& v : k2) els.push_back(v);
        std::vector<Kept<T>> k3; for (auto& v : kept) if (v.id != id) k3.push_back(v);
        kept.swap(k3);
    }
    int add(std::unique_ptr<VarT> x, SP<T> m, long r, long c) {
        int id = next++;
        Owner<T, Sh> o; o.x = std::move(x); o.m = m; o.r = r; o.c = c;
        own.emplace(id, std::move(o));
        return id;
    }
    // writes through object x at window off of model m
    template <class X> void write(X& x, Store<T>& m, long off, long r, long c) {
        using S2 = typename X::shape_t;
        constexpr bool sc = std::is_same_v<S2, ad::scl>;
        long n = r * c, i = (long)s.draw((uint64_t)n);
        T t = val();
        switch (s.draw(12)) {
            case 0: case 1: x.data()[i] = t; m.v[off + i] = t; break;
            case 2: x.data_adj()[i] = t; m.a[off + i] = t; break;
            case 3: if constexpr (sc) x.get() = t; else x.get((size_t)(i % r), (size_t)(i / r)) = t; m.v[off + i] = t; break;
            case 4: if constexpr (sc) x.get_adj() = t; else x.get_adj((size_t)(i % r), (size_t)(i / r)) = t; m.a[off + i] = t; break;
            case 5: if constexpr (sc) x.get() = t; else x.get().array() = t; for (long k = 0; k < n; ++k) m.v[off + k] = t; break;
            case 6: x.reset_adj(); for (long k = 0; k < n; ++k) m.a[off + k] = 0; break;
            case 7: x.zero(); for (long k = 0; k < n; ++k) m.v[off + k] = 0; break;
            case 8: x.ones(); for (long k = 0; k < n; ++k) m.v[off + k] = 1; break;
            case 9: x.zero_adj(); for (long k = 0; k < n; ++k) m.a[off + k] = 0; break;
            case 10: x.ones_adj(); for (long k = 0; k < n; ++k) m.a[off + k] = 1; break;
            case 11: {                              // a backward pass into it: adjoint += seed
                if constexpr (sc) x.beval(t); else if (s.draw(2)) x.beval(t); else {
                    Eigen::Array<T, Eigen::Dynamic, Eigen::Dynamic> sd = Eigen::Array<T, Eigen::Dynamic, Eigen::Dynamic>::Constant(r, c, t);
                    if constexpr (std::is_same_v<S2, ad::vec>) x.beval(sd.col(0)); else x.beval(sd);
                }
                for (long k = 0; k < n; ++k) m.a[off + k] += t;
                break;
            }
        }
        ++effects;
    }
    // gradient of sum(k * x) where the expression was built earlier
    template <class X> void expression(X& x, Store<T>& m, long off, long n) {
        int dup = (int)s.draw(2);
        if constexpr (std::is_same_v<T, double>) {
            auto go = [&](auto&& e) {
                if (dup) { auto f = e; auto b = ad::bind(f); double v = ad::autodiff(b); return v; }
                auto b = ad::bind(e); return (double)ad::autodiff(b);
            };
            double v, want = 0;
            if constexpr (std::is_same_v<typename X::shape_t, ad::scl>) v = go(x * 4.0); else v = go(ad::sum(x * 4.0));
            for (long i = 0; i < n; ++i) { want += 4 * m.v[off + i]; m.a[off + i] += 4; }
            if (v != want) fail("expression over the variable evaluates to %g, expected %g", v, want);
        } else {
            using A = Eigen::Array<T, Eigen::Dynamic, Eigen::Dynamic>;
            (void)sizeof(A);
            x.beval(T(4));
            for (long i = 0; i < n; ++i) m.a[off + i] += 4;
        }
    }

    template <class X> void keep(X& x, SP<T> m, long off, long n, int id) {
        if constexpr (std::is_same_v<T, double>) {
            if constexpr (std::is_same_v<typename X::shape_t, ad::scl>) {
                auto b = std::make_shared<decltype(ad::bind(x * 2.0))>(ad::bind(x * 2.0));
                kept.push_back({[b] { return (double)ad::autodiff(*b); }, m, off, n, id});
            } else {
                auto b = std::make_shared<decltype(ad::bind(ad::sum(x * 2.0)))>(ad::bind(ad::sum(x * 2.0)));
                kept.push_back({[b] { return (double)ad::autodiff(*b); }, m, off, n, id});
            }
        }
    }
    void step() {
        ++steps;
        int kind = (int)s.draw(30);
        int id = pick();
        auto clone = [](const Store<T>& m) { return std::make_shared<Store<T>>(m); };
        if (id < 0 || kind == 0) {
            auto sh = shape();
            auto m = std::make_shared<Store<T>>((size_t)(sh.first * sh.second));
            std::unique_ptr<VarT> x;
            if constexpr (K == 0) {
                if (s.draw(2)) { T t = val(); m->v[0] = t; x.reset(new VarT(t)); } else x.reset(new VarT);
            } else x.reset(new VarT(make(sh.first, sh.second)));
            int n = add(std::move(x), m, sh.first, sh.second);
            log("%d=new %ldx%ld", n, sh.first, sh.second);
            return;
        }
        auto& o = own.at(id);
        switch (kind) {
            case 1: case 2: { int n = add(std::unique_ptr<VarT>(new VarT(static_cast<const VarT&>(*o.x))), clone(*o.m), o.r, o.c); log("%d=copy %d", n, id); TAGS["copy"]++; nontriv = true; break; }
            case 3: { int n = add(std::unique_ptr<VarT>(new VarT(by_value(*o.x))), clone(*o.m), o.r, o.c); log("%d=returned copy of %d", n, id); break; }
            case 4: case 5: {
                forget(id);
                auto m = o.m; long r = o.r, c = o.c;
                auto x = std::unique_ptr<VarT>(kind == 4 ? new VarT(std::move(*o.x)) : new VarT(pass(std::move(*o.x))));
                bool destroy = s.draw(2);
                if (destroy) own.erase(id); else o.moved = true;
                int n = add(std::move(x), m, r, c);
                log("%d=move %d%s", n, id, destroy ? " (destroyed)" : ""); TAGS["move"]++; nontriv = true;
                break;
            }
            case 6: case 7: {                      // assignment between owners of equal shape (or onto a moved-from one)
                std::vector<int> c;
                for (auto& q : own) if (q.second.r == o.r && q.second.c == o.c) c.push_back(q.first);
                int to = c[s.draw(c.size())];
                auto& t = own.at(to);
                if (kind == 6) {
                    *t.x = static_cast<const VarT&>(*o.x);
                    if (to != id) {
                        if (t.moved) { forget(to); t.m = clone(*o.m); t.moved = false; }
                        else *t.m = *o.m;           // its memory stays where it is: views see the new contents
                    }
                    TAGS[to == id ? "self_assign" : "assign"]++;
                } else {
                    if (to == id) { VarT& same = *t.x; *t.x = std::move(same); TAGS["self_assign"]++; }
                    else {
                        forget(to); forget(id);
                        *t.x = std::move(*o.x); t.m = o.m; t.moved = false; o.moved = true; TAGS["move_assign"]++;
                    }
                }
                log("%d%s%d", to, kind == 6 ? "=" : "=move ", id); nontriv = true;
                break;
            }
            case 8: { log("destroy %d", id); forget(id); own.erase(id); break; }
            case 9: {                              // swap
                std::vector<int> c;
                for (auto& q : own) if (!q.second.moved && q.second.r == o.r && q.second.c == o.c) c.push_back(q.first);
                int to = c[s.draw(c.size())];
                if (to == id) break;
                auto& t = own.at(to);
                forget(to); forget(id);
                std::swap(*t.x, *o.x); std::swap(t.m, o.m);
                log("swap %d %d", to, id); TAGS["swap"]++; nontriv = true;
                break;
            }
            case 10: case 11: {                    // into a container
                if (vecs.size() < 9) {
                    if (s.draw(2)) { vecs.push_back(*o.x); vecm.push_back(clone(*o.m)); vecsh.emplace_back(o.r, o.c); log("push copy of %d", id); }
                    else { vecs.emplace_back(make(o.r, o.c)); vecm.push_back(std::make_shared<Store<T>>((size_t)(o.r * o.c))); vecsh.emplace_back(o.r, o.c); log("push new"); }
                    nontriv = true; TAGS["container"]++;
                } else { vecs.clear(); vecm.clear(); vecsh.clear(); log("clear container"); }
                break;
            }
            case 12: if (!vecs.empty()) { size_t i = s.draw(vecs.size()); log("write element %zu", i); write(vecs[i], *vecm[i], 0, vecsh[i].first, vecsh[i].second); } break;
            case 13: if (!vecs.empty()) {
                         std::vector<VarT> w(vecs);                 // container copy: written to, then dropped
                         for (auto& x : w) x.ones();
                         vecs.shrink_to_fit(); vecs.reserve(vecs.capacity() + 1 + s.draw(3)); log("copy and regrow container");
                     } break;
            case 14: { views.push_back({ViewT(o.x->data(), o.x->data_adj(), (size_t)o.r, (size_t)o.c), o.m, 0, o.r, o.c, id}); log("view of %d", id); TAGS["view"]++; break; }
            case 15: { ViewT w = *o.x; views.push_back({w, o.m, 0, o.r, o.c, id}); log("view (converted) of %d", id); nontriv = true; break; }
            case 16: case 17: {                    // sub-views, of owners or of views
                if constexpr (K == 1) {
                    bool ofv = !views.empty() && s.draw(2);
                    size_t vi = ofv ? s.draw(views.size()) : 0;
                    ViewT base = ofv ? views[vi].x : ViewT(*o.x);
                    SP<T> m = ofv ? views[vi].m : o.m; long off = ofv ? views[vi].off : 0, n = ofv ? views[vi].r : o.r; int oid = ofv ? views[vi].id : id;
                    long k = s.range(1, n);
                    switch (s.draw(4)) {
                        case 0: views.push_back({ofv ? base.head((size_t)k) : o.x->head((size_t)k), m, off, k, 1, oid}); log("head %ld", k); break;
                        case 1: views.push_back({ofv ? base.tail((size_t)k) : o.x->tail((size_t)k), m, off + n - k, k, 1, oid}); log("tail %ld", k); break;
                        case 2: els.push_back({ofv ? base((size_t)(k - 1)) : (*o.x)((size_t)(k - 1)), m, off + k - 1, 1, 1, oid}); log("element %ld", k - 1); break;
                        default: els.push_back({ofv ? base[(size_t)(k - 1)] : (*o.x)[(size_t)(k - 1)], m, off + k - 1, 1, 1, oid}); log("element[] %ld", k - 1);
                    }
                    TAGS["subview"]++; nontriv = true;
                } else { ViewT w(*o.x); ViewT u(w); views.push_back({u, o.m, 0, o.r, o.c, id}); }
                break;
            }
            case 18: {                             // views over caller memory, possibly several on one block
                if (ext.empty() || s.draw(2)) {
                    size_t n = (size_t)s.range(1, 12);
                    Ext<T> e; e.m = std::make_shared<Store<T>>(n); e.v.reset(new T[n]); e.a.reset(new T[n]);
                    for (size_t i = 0; i < n; ++i) { e.v[i] = e.m->v[i] = val(); e.a[i] = e.m->a[i] = val(); }
                    ext.push_back(std::move(e));
                }
                auto& e = ext[s.draw(ext.size())];
                long n = (long)e.m->v.size(), r = 1, c = 1, off = (long)s.draw((uint64_t)n);
                if (K == 1) r = s.range(1, n - off);
                if (K == 2) { r = s.range(1, n - off); c = s.range(1, (n - off) / r); }
                if (s.draw(2)) views.push_back({ViewT(e.v.get() + off, e.a.get() + off, (size_t)r, (size_t)c), e.m, off, r, c, -1});
                else {                             // built empty, bound later
                    ViewT w(nullptr, nullptr, (size_t)r, (size_t)c);
                    auto end = w.bind({e.v.get() + off, e.a.get() + off});
                    if (end.val != e.v.get() + off + r * c || end.adj != e.a.get() + off + r * c) fail("bind() of a %ldx%ld view returns the wrong end", r, c);
                    views.push_back({w, e.m, off, r, c, -1});
                }
                log("view of caller memory at %ld, %ldx%ld", off, r, c); TAGS["external_view"]++; nontriv = true;
                break;
            }
            case 19: if (!views.empty()) {          // rebinding a view leaves the old memory alone
                         auto& w = views[s.draw(views.size())];
                         for (auto& e : ext) if ((long)e.m->v.size() >= w.r * w.c) {
                             long off = (long)s.draw((uint64_t)((long)e.m->v.size() - w.r * w.c + 1));
                             w.x.bind({e.v.get() + off, e.a.get() + off}); w.m = e.m; w.off = off; w.id = -1; log("rebind view"); TAGS["rebind"]++; nontriv = true; break;
                         }
                     } break;
            case 20: if (!views.empty()) { auto& w = views[s.draw(views.size())]; log("write view"); write(w.x, *w.m, w.off, w.r, w.c); } break;
            case 21: if (!els.empty()) { auto& w = els[s.draw(els.size())]; log("write element view"); write(w.x, *w.m, w.off, 1, 1); } break;
            case 22: {
                size_t k = s.draw(3);
                if (k == 0 || (views.empty() && els.empty())) expression(*o.x, *o.m, 0, o.r * o.c);
                else if (k == 1 && !views.empty()) { auto& w = views[s.draw(views.size())]; expression(w.x, *w.m, w.off, w.r * w.c); }
                else if (!els.empty()) { auto& w = els[s.draw(els.size())]; expression(w.x, *w.m, w.off, 1); }
                log("expression"); TAGS["expression"]++;
                break;
            }
            case 23: {                             // an expression refers to the variable it was built from, not to a copy of it
                if constexpr (std::is_same_v<T, double>) {
                    auto e = [&] { if constexpr (K == 0) return ad::bind(*o.x * 2.0); else return ad::bind(ad::sum(*o.x * 2.0)); }();
                    VarT other(*o.x);
                    other.ones();
                    double want = 0;
                    for (long i = 0; i < o.r * o.c; ++i) { want += 2 * o.m->v[i]; o.m->a[i] += 2; }
                    double v = ad::autodiff(e);
                    if (v != want) fail("expression built before a copy was taken evaluates to %g, expected %g", v, want);
                    for (long i = 0; i < o.r * o.c; ++i) if (other.data_adj()[i] == o.m->a[i] && other.data_adj()[i] != o.m->a[i] - 2) fail("gradient went into a copy");
                    log("expression, then copy of %d", id);
                }
                break;
            }
            case 26: {
                size_t k = s.draw(3);
                if (k == 2 && !els.empty()) { auto& w = els[s.draw(els.size())]; keep(w.x, w.m, w.off, 1, w.id); }
                else if (k == 1 && !views.empty()) { auto& w = views[s.draw(views.size())]; keep(w.x, w.m, w.off, w.r * w.c, w.id); }
                else keep(*o.x, o.m, 0, o.r * o.c, id);
                log("keep expression");
                break;
            }
            case 27: case 28: if (!kept.empty()) {
                auto& e = kept[s.draw(kept.size())];
                double want = 0;
                for (long i = 0; i < e.n; ++i) { want += 2 * e.m->v[e.off + i]; e.m->a[e.off + i] += 2; }
                double v = e.run();
                if (v != want) fail("an expression kept from earlier evaluates to %g, expected %g", v, want);
                log("evaluate kept"); TAGS["kept"]++; nontriv = true;
            } break;
            default: log("write %d", id); write(*o.x, *o.m, 0, o.r, o.c);
        }
    }
};
struct Out { bool nt; long evals; };
template <class T, class Sh> Out history(Src& s) {
    World<T, Sh> w(s);
    int n = 6 + (int)s.draw(40);
    w.check();
    for (int i = 0; i < n; ++i) { w.step(); w.check(); }
    return {w.nontriv && w.effects > 0, w.steps};
}
Out run_case(Src& s) {
    LOG.clear();
    switch (s.draw(9)) {
        case 0: case 1: LOG = "double scl: "; return history<double, ad::scl>(s);
        case 2: case 3: case 4: LOG = "double vec: "; return history<double, ad::vec>(s);
        case 5: case 6: LOG = "double mat: "; return history<double, ad::mat>(s);
        case 7: LOG = "float vec: "; return history<float, ad::vec>(s);
        default: LOG = "float mat: "; return history<float, ad::mat>(s);
    }
}
} // namespace
#include "history_main.hpp"
