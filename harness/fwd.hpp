// Forward-mode programs: P::f<T>(x) computes one output from the vector of inputs x.
#pragma once
#include "api.hpp"
#include <fastad>
namespace hv {
template <class P> struct FwdInst : Instance {
    template <class T> static void go(std::vector<double>& x, std::vector<double>& dx, double& v, double& d) {
        std::vector<ad::ForwardVar<T>> in;
        for (size_t i = 0; i < x.size(); ++i) {
            switch (i % 3) {                                    // the ways of making a variable
                case 0: in.emplace_back(T(x[i]), T(dx[i])); break;
                case 1: in.emplace_back(T(x[i])); in.back().set_adjoint(T(dx[i])); break;
                default: in.emplace_back(); in.back().set_value(T(x[i])); in.back().get_adjoint() = T(dx[i]);
            }
        }
        ad::ForwardVar<T> y = P::template f<T>(in);
        v = (double)y.get_value(); d = (double)y.get_adjoint();
        for (size_t i = 0; i < x.size(); ++i) { x[i] = (double)in[i].get_value(); dx[i] = (double)in[i].get_adjoint(); }
    }
    void fwd(std::vector<double>& x, std::vector<double>& dx, int prec, double& v, double& d) override {
        if (prec) go<float>(x, dx, v, d); else go<double>(x, dx, v, d);
    }
    long rows() override { return 1; }
    long cols() override { return 1; }
    long size() override { return 1; }
    int shape() override { return 0; }
    void get(std::vector<double>&) override {}
    void feval(std::vector<double>&, long&, long&, int) override {}
    void beval(const std::vector<double>&, int) override {}
    void autodiff(std::vector<double>&, long&, long&, const std::vector<double>&, int) override {}
};
template <class P> struct FwdEnv : EnvBase {
    explicit FwdEnv(const Layout& l) : EnvBase(l) {}
    Instance* bound() override { return new FwdInst<P>; }
    Instance* raw() override { return new FwdInst<P>; }
};
template <class P> struct FwdReg {
    explicit FwdReg(const char* id) { registry()[id] = [](const Layout& l) -> EnvBase* { return new FwdEnv<P>(l); }; }
};
} // namespace hv
