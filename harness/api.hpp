// What the driver and the generated translation units share (no FastAD, no Eigen).
#pragma once
#include <stdexcept>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace hv {
struct ObjL { long r, c; };
struct ConstL { long r, c; std::vector<double> v; };
struct Layout {                         // runtime sizes of one instance of a program
    std::vector<ObjL> objs;
    std::vector<std::vector<int>> banks;
    std::vector<std::vector<double>> vbanks;
    std::vector<ConstL> consts;
    std::vector<long> dims, idx;
    bool shift = false;                 // view buffers that are only 8-byte aligned
};
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Slot { double* v = nullptr; double* a = nullptr; long r = 0, c = 0; };
struct Instance {
    virtual ~Instance() {}
    virtual long rows() = 0;
    virtual long cols() = 0;
    virtual long size() = 0;
    virtual int shape() = 0;
    virtual void get(std::vector<double>&) = 0;
    virtual void feval(std::vector<double>&, long&, long&, int how) = 0;
    virtual void beval(const std::vector<double>&, int how) = 0;
    virtual void autodiff(std::vector<double>&, long&, long&, const std::vector<double>&, int how) = 0;
    // forward mode: one pass over inputs x with tangents dx; prec 0 double, 1 float
    virtual void fwd(std::vector<double>& /*x*/, std::vector<double>& /*dx*/, int /*prec*/, double& /*v*/, double& /*d*/) {}
    virtual Instance* copy() { return nullptr; }
    virtual Instance* move() { return nullptr; }
    virtual void assign(Instance&, bool /*move*/) {}
    virtual void sizes(long&, long&) {}
    virtual void bind(double*, double*, double*&, double*&) {}
};
struct EnvBase {
    const Layout* L;
    std::vector<Slot> slots;
    std::vector<double*> cptr;
    std::vector<std::unique_ptr<double[]>> bufs;
    // other value types than double: the slots are mirrors, copied in before and out after every call
    std::vector<std::function<void(bool)>> mirrors;
    void sync(bool in) { for (auto& f : mirrors) f(in); }
    double* mirror(long n) { bufs.emplace_back(new double[n]()); return bufs.back().get(); }
    explicit EnvBase(const Layout& l) : L(&l), slots(l.objs.size()), cptr(l.consts.size(), nullptr) {}
    EnvBase(const EnvBase&) = delete;
    virtual ~EnvBase() {}
    virtual Instance* bound() = 0;
    virtual Instance* raw() = 0;
    double* buffer(long n) {
        bool s = L->shift;
        bufs.emplace_back(new double[n + s]);
        for (long i = 0; i < n + s; ++i) bufs.back()[i] = 0;
        return bufs.back().get() + s;
    }
    long dim(int i) const { return L->dims[i]; }
    long ix(int i) const { return L->idx[i]; }
    double cs(int i) const { return L->consts[i].v[0]; }
};
using Factory = std::function<EnvBase*(const Layout&)>;
inline std::map<std::string, Factory>& registry();
std::map<std::string, Factory>& registry_impl();
inline std::map<std::string, Factory>& registry() { return registry_impl(); }
} // namespace hv
