// Side of the harness that touches FastAD: generated translation units include this file and
// register one Env per generated program. Only the public API is used.
#pragma once
#include "api.hpp"
#include <fastad>
#include <memory>
#include <cstring>
#ifndef HV_REAL
#define HV_REAL double
#endif
namespace hv {
using real = HV_REAL;                    // value type of the programs of this unit
inline constexpr bool same_real = std::is_same_v<real, double>;

// ------------------------------------------------------------------ variable storage
template <class Shape, bool Own> struct Leaf;
template <class R> inline double* mirrored(EnvBase& e, R* x, long n) {
    if constexpr (std::is_same_v<R, double>) { (void)e; (void)n; return x; }
    else {
        double* m = e.mirror(n);
        auto f = [=](bool in) { for (long i = 0; i < n; ++i) if (in) x[i] = (R)m[i]; else m[i] = (double)x[i]; };
        f(false);
        e.mirrors.push_back(f);
        return m;
    }
}
inline void reg(EnvBase& e, int obj, real* v, real* a, long r, long c) {
    e.slots[obj] = Slot{mirrored(e, v, r * c), mirrored(e, a, r * c), r, c};
}
inline real cs(const EnvBase& e, int i) { return (real)e.cs(i); }
template <class R = real> inline decltype(auto) vbank(const EnvBase& e, int i) {
    if constexpr (std::is_same_v<R, double>) return (e.L->vbanks[i]);
    else return std::vector<R>(e.L->vbanks[i].begin(), e.L->vbanks[i].end());
}

template <class X> inline void regx(EnvBase& e, int obj, X& x) {
    reg(e, obj, x.data(), x.data_adj(), (long)x.rows(), (long)x.cols());
}
template <class Shape> inline ad::Var<real, Shape> mkvar(const ObjL& o) {
    if constexpr (std::is_same_v<Shape, ad::scl>) { (void)o; return ad::Var<real, Shape>(); }
    else if constexpr (std::is_same_v<Shape, ad::vec>) return ad::Var<real, Shape>((size_t)o.r);
    else return ad::Var<real, Shape>((size_t)o.r, (size_t)o.c);
}
template <class R = real> inline R* memory(EnvBase& e, long n) {
    if constexpr (std::is_same_v<R, double>) return e.buffer(n);
    else {
        auto p = std::make_shared<std::vector<R>>(n);
        e.mirrors.push_back([p](bool) {});
        return p->data();
    }
}
template <class Shape> inline ad::VarView<real, Shape> mkview(EnvBase& e, const ObjL& o) {
    real* v = memory(e, o.r * o.c);
    real* a = memory(e, o.r * o.c);
    return ad::VarView<real, Shape>(v, a, (size_t)o.r, (size_t)o.c);
}
template <class Shape, bool Own> struct Leaf {
    std::conditional_t<Own, ad::Var<real, Shape>, ad::VarView<real, Shape>> x;
    static auto make(EnvBase& e, int obj) {
        if constexpr (Own) return mkvar<Shape>(e.L->objs[obj]);
        else return mkview<Shape>(e, e.L->objs[obj]);
    }
    Leaf(EnvBase& e, int obj) : x(make(e, obj)) { regx(e, obj, x); }
};
template <class Shape, bool Own> struct Bank {
    std::vector<std::conditional_t<Own, ad::Var<real, Shape>, ad::VarView<real, Shape>>> x;
    Bank(EnvBase& e, int bank) {
        const auto& ids = e.L->banks[bank];
        for (int id : ids) x.push_back(Leaf<Shape, Own>::make(e, id));
        for (size_t i = 0; i < ids.size(); ++i) regx(e, ids[i], x[i]);
    }
    auto& operator[](size_t i) { return x[i]; }
    auto begin() { return x.begin(); }
    auto end() { return x.end(); }
};
template <class Shape> struct CBuf {
    using obj_t = Eigen::Matrix<real, Eigen::Dynamic, std::is_same_v<Shape, ad::vec> ? 1 : Eigen::Dynamic>;
    static auto make(EnvBase& e, int i) {
        const ConstL& c = e.L->consts[i];
        if constexpr (std::is_same_v<Shape, ad::vec>)
            return obj_t(Eigen::Map<const Eigen::VectorXd>(c.v.data(), c.r).template cast<real>());
        else return obj_t(Eigen::Map<const Eigen::MatrixXd>(c.v.data(), c.r, c.c).template cast<real>());
    }
    obj_t x;
    CBuf(EnvBase& e, int i) : x(make(e, i)) { e.cptr[i] = mirrored(e, x.data(), (long)x.size()); }
};
template <class B, class V> inline auto prev(size_t i, B& b, V& v) {
    using view_t = ad::util::convert_to_ad_t<std::decay_t<V>>;
    return i == 0 ? view_t(v) : view_t(b[i - 1]);
}
inline std::vector<size_t> iota(size_t n) { std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = i; return v; }

// ------------------------------------------------------------------ instances
template <class X> inline void store(const X& x, std::vector<double>& out, long& r, long& c) {
    if constexpr (std::is_arithmetic_v<std::decay_t<X>>) { out.assign(1, (double)x); r = c = 1; }
    else {
        r = x.rows(); c = x.cols(); out.resize(r * c);
        for (long j = 0; j < c; ++j) for (long i = 0; i < r; ++i) out[i + j * r] = (double)x(i, j);
    }
}
template <class X> inline decltype(auto) peel(X& x) { return (x); }
template <class T> inline T& peel(ad::core::ExprBind<T>& x) { return x.get(); }

// the seed as the entry points take it
template <class E, class F> inline void with_seed(E& e, const std::vector<double>& s, F&& f) {
    using expr_t = std::decay_t<E>;
    if constexpr (ad::util::is_scl_v<expr_t>) f((real)s.at(0));
    else {
        Eigen::Array<real, Eigen::Dynamic, Eigen::Dynamic> m(e.rows(), e.cols());
        for (long i = 0; i < m.size(); ++i) m.data()[i] = (real)(s.size() == 1 ? s[0] : s.at(i));
        if constexpr (ad::util::is_vec_v<expr_t>) { Eigen::Array<real, Eigen::Dynamic, 1> v = m.col(0); f(v); }
        else f(m);
    }
}

template <class B> struct Inst : Instance {
    B b;
    explicit Inst(const B& x) : b(x) {}
    explicit Inst(B&& x) : b(std::move(x)) {}
    using expr_t = std::decay_t<decltype(peel(std::declval<B&>()))>;
    static constexpr bool scalar = ad::util::is_scl_v<expr_t>;
    long rows() override { return (long)peel(b).rows(); }
    long cols() override { return (long)peel(b).cols(); }
    long size() override { return (long)peel(b).size(); }
    int shape() override { return scalar ? 0 : ad::util::is_vec_v<expr_t> ? 1 : 2; }
    void get(std::vector<double>& out) override { long r, c; store(peel(b).get(), out, r, c); }
    void feval(std::vector<double>& out, long& r, long& c, int how) override {
        if (how == 0) { auto v = ad::evaluate(b); store(v, out, r, c); }
        else if (how == 1) { auto&& v = peel(b).feval(); store(v, out, r, c); }
        else { auto v = ad::evaluate(std::move(b)); store(v, out, r, c); }
    }
    void beval(const std::vector<double>& s, int how) override {
        if constexpr (scalar) {
            if (s.empty()) { if (how == 2) ad::evaluate_adj(std::move(b)); else ad::evaluate_adj(b); return; }
        }
        with_seed(peel(b), s, [&](const auto& seed) {
            if (how == 0) ad::evaluate_adj(b, seed);
            else if (how == 1) peel(b).beval(seed);
            else ad::evaluate_adj(std::move(b), seed);
        });
    }
    void autodiff(std::vector<double>& out, long& r, long& c, const std::vector<double>& s, int how) override {
        if constexpr (scalar) {
            if (s.empty()) {
                if (how == 2) store(ad::autodiff(std::move(b)), out, r, c);
                else store(ad::autodiff(b), out, r, c);
                return;
            }
        }
        with_seed(peel(b), s, [&](const auto& seed) {
            if (how == 2) { auto v = ad::autodiff(std::move(b), seed); store(v, out, r, c); }
            else { auto v = ad::autodiff(b, seed); store(v, out, r, c); }
        });
    }
};
template <class X> struct BoundInst : Inst<ad::core::ExprBind<X>> {
    using base = Inst<ad::core::ExprBind<X>>;
    using base::base;
    Instance* copy() override { return new BoundInst(static_cast<const ad::core::ExprBind<X>&>(this->b)); }
    Instance* move() override { return new BoundInst(std::move(this->b)); }
    void assign(Instance& o, bool mv) override {
        auto& x = static_cast<BoundInst&>(o).b;
        if (mv) this->b = std::move(x); else this->b = x;
    }
};
// expression bound by hand to memory of the caller
template <class X> struct RawInst : Inst<X> {
    std::unique_ptr<double[]> vb, ab;
    explicit RawInst(const X& x) : Inst<X>(x) {}
    void sizes(long& v, long& a) override { auto s = this->b.bind_cache_size(); v = (long)s(0); a = (long)s(1); }
    void bind(double* v, double* a, double*& ev, double*& ea) override {
        auto p = this->b.bind_cache({v, a});
        ev = p.val; ea = p.adj;
    }
    Instance* copy() override { return new RawInst(this->b); }
};

// copies the mirrored memory in before and out after every call
struct SyncInst : Instance {
    EnvBase& e;
    std::unique_ptr<Instance> x;
    SyncInst(EnvBase& e_, Instance* i) : e(e_), x(i) {}
    long rows() override { return x->rows(); }
    long cols() override { return x->cols(); }
    long size() override { return x->size(); }
    int shape() override { return x->shape(); }
    void get(std::vector<double>& out) override { x->get(out); }
    void feval(std::vector<double>& out, long& r, long& c, int how) override { e.sync(true); x->feval(out, r, c, how); e.sync(false); }
    void beval(const std::vector<double>& s, int how) override { e.sync(true); x->beval(s, how); e.sync(false); }
    void autodiff(std::vector<double>& out, long& r, long& c, const std::vector<double>& s, int how) override {
        e.sync(true); x->autodiff(out, r, c, s, how); e.sync(false);
    }
};
template <class E> struct Env : EnvBase {
    E e;
    explicit Env(const Layout& l) : EnvBase(l), e(*this) {}
    Instance* bound() override {
        if (!same_real) sync(true);
        auto b = ad::bind(e.expr());
        using X = std::decay_t<decltype(b.get())>;
        if constexpr (same_real) return new BoundInst<X>(std::move(b));
        else return new SyncInst(*this, new Inst<ad::core::ExprBind<X>>(std::move(b)));
    }
    Instance* raw() override {
        if constexpr (!same_real) return nullptr;
        else {
            auto x = e.expr();
            return new RawInst<decltype(x)>(x);
        }
    }
};
template <class E> struct Reg {
    explicit Reg(const char* id) { registry()[id] = [](const Layout& l) -> EnvBase* { return new Env<E>(l); }; }
};
} // namespace hv
