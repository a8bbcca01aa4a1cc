"""Generator of FastAD programs: random or enumerated expression trees over the public API.

A program is a JSON-able dict; its tree is emitted twice, once as C++ against FastAD and once as
an s-expression for the reference interpreter (harness/ref.hpp).
"""
import random

SCL, VEC, MAT = 0, 1, 2
SH = {SCL: 'ad::scl', VEC: 'ad::vec', MAT: 'ad::mat'}
UN_ALL = ['neg', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'erf',
          'sigmoid', 'sinh', 'cosh', 'tanh']
# class of argument each unary function is applied to
UN_ARG = {'neg': 'real', 'sin': 'real', 'cos': 'real', 'tan': 'ulim', 'asin': 'ulim', 'acos': 'ulim',
          'atan': 'real', 'exp': 'bnd', 'log': 'pos', 'sqrt': 'pos', 'erf': 'real', 'sigmoid': 'real',
          'sinh': 'bnd', 'cosh': 'bnd', 'tanh': 'real'}
CMP = ['<', '<=', '>', '>=', '==', '!=']
LOGIC = ['&&', '||']
COMPAT = {'real': ['real', 'int', 'pos', 'ulim', 'nz', 'unit', 'ext'], 'bnd': ['real', 'int', 'pos', 'ulim', 'unit'],
          'pos': ['pos', 'unit'], 'ulim': ['ulim'], 'nz': ['nz', 'pos'], 'unit': ['unit'], 'int': ['int'],
          'bit': ['bit'], 'sym': ['sym', 'pd'], 'pd': ['pd'], 'sq': ['sq'], 'ext': ['ext'], 'bool': ['bit']}


class Prog:
    def __init__(self, own, **flags):
        self.d = dict(own=bool(own), dims=[dict(lo=1, hi=1)], vars=[], idx=[], consts=[], banks=[], vbanks=[],
                      expr=None, flags=dict(flags))

    def dim(self, lo=1, hi=5, of=None):
        self.d['dims'].append(dict(lo=lo, hi=hi) if of is None else dict(lo=lo, of=of))
        return len(self.d['dims']) - 1

    def var(self, shape, dom='real', role='leaf'):
        k, r, c = shape
        self.d['vars'].append(dict(shape=k, r=r, c=c, dom=dom, role=role))
        return ['v', len(self.d['vars']) - 1]

    def const(self, shape, dom='real', form='const', refresh=False):
        k, r, c = shape
        self.d['consts'].append(dict(shape=k, r=r, c=c, dom=dom, refresh=refresh))
        return ['c', len(self.d['consts']) - 1, form]

    def bank(self, shape, n, dom='real', role='leaf'):
        k, r, c = shape
        self.d['banks'].append(dict(shape=k, r=r, c=c, dom=dom, role=role, n=n))
        return len(self.d['banks']) - 1

    def vbank(self, n, dom='real'):
        self.d['vbanks'].append(dict(dom=dom, n=n))
        return len(self.d['vbanks']) - 1

    def el(self, v):
        self.d['idx'].append(dict(var=v[1]))
        return ['el', v[1], len(self.d['idx']) - 1]

    def done(self, expr, **flags):
        self.d['expr'] = expr
        self.d['flags'].update(flags)
        return self.d


# ---------------------------------------------------------------- shapes and constness of nodes
def shape_of(p, e):
    o = e[0]
    if o in ('v',):
        v = p['vars'][e[1]]
        return v['shape']
    if o in ('el', 'itv', 'lit', 'int', 'sum', 'prod', 'norm', 'det', 'ldet', 'stat'):
        return SCL
    if o in ('hd', 'tl'):
        return VEC
    if o in ('it', 'itprev'):
        return p['banks'][e[1]]['shape']
    if o == 'c':
        return p['consts'][e[1]]['shape']
    if o in ('un', 'pow'):
        return shape_of(p, e[2])
    if o == 'bin':
        return max(shape_of(p, e[2]), shape_of(p, e[3]))
    if o == 'if':
        return shape_of(p, e[2])
    if o == 'dot':
        return VEC if shape_of(p, e[2]) == VEC else MAT
    if o == 'tr':
        return MAT
    if o in ('sit', 'pit', 'fe'):
        return shape_of(p, e[2])
    if o == 'eq':
        return shape_of(p, e[1])
    if o == 'op':
        return shape_of(p, e[2])
    if o == 'gl':
        return shape_of(p, e[2])
    raise ValueError(o)


def is_const(p, e):
    o = e[0]
    if o in ('lit', 'int', 'c', 'itv'):
        return True
    if o in ('v', 'el', 'hd', 'tl', 'it', 'itprev', 'eq', 'op', 'gl', 'fe'):
        return False
    if o == 'stat':
        return False
    return all(is_const(p, x) for x in e[1:] if isinstance(x, list))


def is_raw(e):
    """a C++ value that is not an AD expression"""
    return e[0] in ('lit', 'int', 'itv') or (e[0] == 'c' and e[2] == 'raw')


def nodes(e):
    yield e
    for x in e[1:]:
        if isinstance(x, list):
            yield from nodes(x)


# ---------------------------------------------------------------- emission
def sx(e):
    if isinstance(e, list):
        return '(' + ' '.join(sx(x) for x in e) + ')'
    if isinstance(e, float):
        return repr(e)
    return str(e)


def num(x):
    s = repr(float(x))
    return s if ('.' in s or 'e' in s or 'n' in s) else s + '.0'


class Emit:
    def __init__(self, p):
        self.p = p
        self.pre = []
        self.cnt = 0

    def e(self, n, loop=None):
        o = n[0]
        E = lambda x: self.e(x, loop)
        if o == 'v':
            return f'v{n[1]}'
        if o == 'el':
            return f'v{n[1]}[E.ix({n[2]})]' if n[2] % 2 else f'v{n[1]}(E.ix({n[2]}))'
        if o == 'hd':
            return f'v{n[1]}.head(E.dim({n[2]}))'
        if o == 'tl':
            return f'v{n[1]}.tail(E.dim({n[2]}))'
        if o == 'it':
            return 'it_' if loop == 'd' else f'b{n[1]}[i_]'
        if o == 'itprev':
            return f'hv::prev(i_, b{n[1]}, v{n[2]})'
        if o == 'itv':
            return 'it_' if loop == 'd' else f'k{n[1]}[i_]'
        if o == 'lit':
            return f'hv::real({num(n[1])})'
        if o == 'int':
            return f'({n[1]})'
        if o == 'c':
            c = self.p['consts'][n[1]]
            if c['shape'] == SCL:
                s = f'hv::cs(E, {n[1]})'
                return s if n[2] == 'raw' else f'ad::constant({s})'
            s = f'c{n[1]}'
            if n[2] == 'raw':
                return s
            if n[2] == 'const':
                return f'ad::constant({s})'
            if c['shape'] == VEC:
                return f'ad::constant_view({s}.data(), {s}.size())'
            return f'ad::constant_view({s}.data(), {s}.rows(), {s}.cols())'
        if o == 'un':
            a = E(n[2])
            return f'(-{a})' if n[1] == 'neg' else f'ad::{n[1]}({a})'
        if o == 'bin':
            return f'({E(n[2])} {n[1]} {E(n[3])})'
        if o == 'if':
            return f'ad::if_else({E(n[1])}, {E(n[2])}, {E(n[3])})'
        if o in ('sum', 'prod', 'norm'):
            return f'ad::{o}({E(n[1])})'
        if o == 'pow':
            return f'ad::pow<{n[1]}>({E(n[2])})'
        if o == 'dot':
            return f'ad::dot({E(n[1])}, {E(n[2])})'
        if o == 'tr':
            return f'ad::transpose({E(n[1])})'
        if o in ('det', 'ldet'):
            f = 'det' if o == 'det' else 'log_det'
            pol = n[1]
            return f'ad::{f}({E(n[2])})' if pol == 'default' else \
                f'ad::{f}<ad::{"Det" if o == "det" else "LogDet"}{pol}>({E(n[2])})'
        if o in ('sit', 'pit', 'fe'):
            f = {'sit': 'sum', 'pit': 'prod', 'fe': 'for_each'}[o]
            bank, style = n[1][:-1], n[1][-1]
            nm = ('b' if bank[0] == 'b' else 'k') + bank[1:]
            if style == 'd':
                return f'ad::{f}({nm}.begin(), {nm}.end(), [&](const auto& it_) {{ return {self.e(n[2], "d")}; }})'
            self.cnt += 1
            self.pre.append(f'auto ii{self.cnt} = hv::iota({nm}.{"x." if nm[0] == "b" else ""}size());')
            return f'ad::{f}(ii{self.cnt}.begin(), ii{self.cnt}.end(), [&](size_t i_) {{ return {self.e(n[2], "i")}; }})'
        if o == 'stat':
            f = {'bern': 'bernoulli', 'normal': 'normal', 'cauchy': 'cauchy', 'uniform': 'uniform', 'wishart': 'wishart'}[n[1]]
            return f'ad::{f}_adj_log_pdf({", ".join(E(x) for x in n[2:])})'
        if o == 'eq':
            return f'({E(n[1])} = {E(n[2])})'
        if o == 'op':
            return f'({E(n[2])} {n[1]} {E(n[3])})'
        if o == 'gl':
            return f'({E(n[1])}, {E(n[2])})'
        raise ValueError(o)


def cpp(p, pid):
    em = Emit(p)
    body = em.e(p['expr'])
    own = 'true' if p['own'] else 'false'
    mem, ini, loc = [], [], []
    for i, v in enumerate(p['vars']):
        mem.append(f'hv::Leaf<{SH[v["shape"]]}, {own}> L{i};')
        ini.append(f'L{i}(e, {i})')
        loc.append(f'[[maybe_unused]] auto& v{i} = L{i}.x;')
    for i, b in enumerate(p['banks']):
        mem.append(f'hv::Bank<{SH[b["shape"]]}, {own}> b{i};')
        ini.append(f'b{i}(e, {i})')
    for i, c in enumerate(p['consts']):
        if c['shape'] == SCL:
            continue
        mem.append(f'hv::CBuf<{SH[c["shape"]]}> C{i};')
        ini.append(f'C{i}(e, {i})')
        loc.append(f'[[maybe_unused]] auto& c{i} = C{i}.x;')
    for i, b in enumerate(p['vbanks']):
        loc.append(f'[[maybe_unused]] const auto& k{i} = hv::vbank(E, {i});')
    n = pid
    return '\n'.join([
        f'struct {n} {{ hv::EnvBase& E;', '  ' + ' '.join(mem),
        f'  {n}(hv::EnvBase& e) : E(e){"".join(", " + x for x in ini)} {{}}',
        '  auto expr() {', '    ' + ' '.join(loc + em.pre), f'    return {body};', '  } };',
        f'static hv::Reg<{n}> R_{n}("{n}");'])


FWD_UN = ['neg', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sqrt', 'erf']


class FwdEmit:
    """straight-line forward-mode code: statements over x[i], then a result"""

    def __init__(self, p):
        self.p, self.st, self.tmp = p, [], 0

    def e(self, n):
        o = n[0]
        if o == 'v':
            return f'x[{n[1]}]'
        if o == 'lit':
            return f'ad::ForwardVar<T>(T({num(n[1])}))'
        if o == 'un':
            return f'(-{self.e(n[2])})' if n[1] == 'neg' else f'ad::{n[1]}({self.e(n[2])})'
        if o == 'bin':
            return f'({self.e(n[2])} {n[1]} {self.e(n[3])})'
        if o == 'eq':
            return f'(x[{n[1][1]}] = {self.e(n[2])})'
        if o == 'op':
            return f'(x[{n[2][1]}] += {self.e(n[3])})'
        raise ValueError(o)

    def flat(self, n):
        if n[0] == 'gl':
            self.flat(n[1])
            return self.flat(n[2])
        self.st.append(self.e(n))

    def body(self):
        self.flat(self.p['expr'])
        return ' '.join(s + ';' for s in self.st[:-1]) + f' return {self.st[-1]};'


def cpp_fwd(p, pid):
    return (f'struct {pid} {{ template <class T> static ad::ForwardVar<T> f(std::vector<ad::ForwardVar<T>>& x) '
            f'{{ {FwdEmit(p).body()} }} }};\nstatic hv::FwdReg<{pid}> R_{pid}("{pid}");')


def zero_dims(p):
    """dimensions that may be zero: the size of vectors and matrices that are only used as a whole"""
    bad = {0} | {d['of'] for d in p['dims'] if 'of' in d} | {i for i, d in enumerate(p['dims']) if 'of' in d}
    for e in nodes(p['expr']):
        if e[0] in ('el', 'hd', 'tl', 'det', 'ldet', 'itprev') or (e[0] == 'stat' and e[1] not in ('uniform', 'cauchy')):
            return []
    for b in p['banks']:
        bad.add(b['n'])
    for b in p['vbanks']:
        bad.add(b['n'])
    for v in p['vars'] + p['consts'] + p['banks']:
        if v['dom'].rstrip('~-') in ('sq', 'pd', 'sym', 'spdx'):
            return []
    return [i for i in range(len(p['dims'])) if i not in bad]


def meta(p, pid):
    s = [f'(prog {pid}']
    s.append('(dims ' + ' '.join(f'({d["lo"]} {d.get("hi", 0)} {d.get("of", -1)})' for d in p['dims']) + ')')
    s.append('(vars ' + ' '.join(f'({v["shape"]} {v["r"]} {v["c"]} {v["dom"]} {v["role"]})' for v in p['vars']) + ')')
    s.append('(idx ' + ' '.join(f'({v["var"]})' for v in p['idx']) + ')')
    s.append('(consts ' + ' '.join(f'({v["shape"]} {v["r"]} {v["c"]} {v["dom"]} {int(v["refresh"])})' for v in p['consts']) + ')')
    s.append('(banks ' + ' '.join(f'({v["shape"]} {v["r"]} {v["c"]} {v["dom"]} {v["role"]} {v["n"]})' for v in p['banks']) + ')')
    s.append('(vbanks ' + ' '.join(f'({v["dom"]} {v["n"]})' for v in p['vbanks']) + ')')
    z = zero_dims(p)
    flags = dict(p['flags'], zero=','.join(map(str, z))) if z else p['flags']
    s.append('(flags ' + ' '.join(f'({k} {v})' for k, v in flags.items()) + ')')
    s.append(sx(p['expr']) + ')')
    return ' '.join(s)


# ---------------------------------------------------------------- random expressions
class Gen:
    """grammar-directed random expressions; every class keeps its arguments inside the mathematical domain"""

    def __init__(self, rng, own=None, ops=None, maxvars=4, hi=5, consts=0.2, forms=('raw', 'const', 'view'),
                 stats=False, iters=True, lin=True, ifs=True, sub=True, un=UN_ALL, maxdims=3, domains=None):
        self.r = rng
        self.p = Prog(rng.random() < 0.5 if own is None else own)
        self.maxvars, self.consts, self.forms = maxvars, consts, forms
        self.stats, self.iters, self.lin, self.ifs, self.sub, self.un = stats, iters, lin, ifs, sub, un
        self.dims = [self.p.dim(1, hi) for _ in range(rng.randint(1, maxdims))]
        self.loop = None          # bank currently iterated
        self.hi = hi
        self.domains = domains
        self.noeq = 1             # > 0: no assignments inside operands here

    def c(self, *xs):
        return self.r.choice(xs)

    def chance(self, x):
        return self.r.random() < x

    def rdim(self):
        return self.r.choice(self.dims)

    def shape(self, k=None):
        k = self.c(SCL, VEC, VEC, MAT) if k is None else k
        return (SCL, 0, 0) if k == SCL else (VEC, self.rdim(), 0) if k == VEC else (MAT, self.rdim(), self.rdim())

    # ---- leaves
    def newdom(self, cls):
        return {'real': self.c('real', 'real', 'real', 'int', 'pos'), 'bnd': 'real', 'bool': 'bit'}.get(cls, cls)

    def leaf(self, shape, cls):
        p, r = self.p.d, self.r
        if self.loop is not None and self.chance(0.6):
            b = p['banks'][self.loop]
            if (b['shape'], b['r'], b['c']) == shape and b['dom'] in COMPAT[cls]:
                return ['it', self.loop]
        cand = [i for i, v in enumerate(p['vars']) if (v['shape'], v['r'], v['c']) == shape and v['dom'] in COMPAT[cls] and v['role'] == 'leaf']
        if self.sub and shape[0] == SCL and self.chance(0.25):
            vs = [i for i, v in enumerate(p['vars']) if v['shape'] == VEC and v['dom'] in COMPAT[cls] and v['role'] == 'leaf']
            if vs:
                return self.p.el(['v', r.choice(vs)])
        if self.sub and shape[0] == VEC and shape[1] < len(p['dims']) and p['dims'][shape[1]].get('of') is not None and self.chance(0.8):
            par = p['dims'][shape[1]]['of']
            vs = [i for i, v in enumerate(p['vars']) if v['shape'] == VEC and v['r'] == par and v['dom'] in COMPAT[cls] and v['role'] == 'leaf']
            v = r.choice(vs) if vs and self.chance(0.7) else self.p.var((VEC, par, 0), self.newdom(cls))[1]
            return [self.c('hd', 'tl'), v, shape[1]]
        if cand and (len(p['vars']) >= self.maxvars or self.chance(0.55)):
            return ['v', r.choice(cand)]
        return self.p.var(shape, self.newdom(cls))

    def lit(self, cls):
        if cls in ('real', 'bnd', 'nz'):
            return self.c(0.5, 1.0, 2.0, -1.0, 0.25, -0.75, 3.0, 1.7)
        if cls == 'ulim':
            return self.c(0.5, -0.25, 0.8)
        if cls in ('unit',):
            return self.c(0.5, 0.25, 0.9)
        return self.c(0.5, 1.0, 2.0, 0.25, 1.7)

    def cleaf(self, shape, cls, ad=False, fold=False):
        forms = [f for f in self.forms if not (ad and f == 'raw')] or ['const']
        if shape[0] == SCL:
            if not ad and self.chance(0.5):
                return ['lit', self.lit(cls)]
            form = self.c('raw', 'const') if not ad else 'const'
            return self.p.const(shape, self.newdom(cls), form)
        form = self.r.choice(forms)
        return self.p.const(shape, self.newdom(cls), form, refresh=(form == 'view' and not fold))

    def cexpr(self, shape, cls, d):
        """an AD expression made of constants only (folded eagerly)"""
        if d <= 0 or self.chance(0.3):
            return self.cleaf(shape, cls, ad=True, fold=True)
        e = Gen2(self)
        return e.expr(shape, cls, d)

    # ---- operators
    def operand_pair(self, shape, cls1, cls2, d, sub=None):
        """two operands for an elementwise operator of result shape `shape`; at most one is constant"""
        s1 = s2 = shape
        if shape[0] != SCL and self.chance(0.3):
            if self.chance(0.5):
                s1 = (SCL, 0, 0)
            else:
                s2 = (SCL, 0, 0)
        if self.chance(self.consts):
            if self.chance(0.5):
                a, b = self.const_operand(s1, cls1, d), self.expr(s2, cls2, d - 1)
            else:
                a, b = self.expr(s1, cls1, d - 1), self.const_operand(s2, cls2, d)
            return a, b
        return self.expr(s1, cls1, d - 1), self.expr(s2, cls2, d - 1)

    def const_operand(self, shape, cls, d):
        if self.chance(0.25):
            return self.cexpr(shape, cls, min(d - 1, 2))
        return self.cleaf(shape, cls, fold=False)

    def cond(self, d):
        if self.chance(0.15):
            op = self.r.choice(LOGIC)
            return ['bin', op, self.cond(0), self.cond(0)]
        op = self.r.choice(CMP)
        a, b = self.operand_pair((SCL, 0, 0), 'real', 'real', min(d, 1))
        return ['bin', op, a, b]

    def branch(self, shape, cls, d):
        a, b = self.expr(shape, cls, d - 1), self.expr(shape, cls, d - 1)
        if self.chance(0.15):
            b = self.cleaf(shape, cls)
        return ['if', self.cond(d - 1), a, b]

    def unary(self, f, shape, d):
        return ['un', f, self.expr(shape, UN_ARG[f], d - 1)]

    def expr(self, shape, cls, d):
        if d <= 0 or (self.chance(0.12)):
            return self.leaf(shape, cls)
        for _ in range(20):
            e = self.try_op(shape, cls, d)
            if e is not None:
                return self.wrap(e, shape, cls)
        return self.leaf(shape, cls)

    def wrap(self, e, shape, cls):
        return e

    def without_eq(self, f, *a):
        self.noeq += 1
        try:
            return f(*a)
        finally:
            self.noeq -= 1

    def iter_node(self, *a):
        return self.without_eq(self.iter_node_, *a)

    def iter_node_(self, kind, shape, cls, d):
        if self.loop is not None or not self.iters:
            return None
        n = self.p.dim(1, 4)
        style = self.c('d', 'i')
        if self.chance(0.2) and shape[0] == SCL:
            k = self.p.vbank(n, 'real')
            other = self.expr(shape, 'bnd', d - 2)
            body = ['bin', self.c('+', '*', '-'), ['itv', k], other] if self.chance(0.7) else ['bin', '*', other, ['itv', k]]
            return [kind, f'k{k}{style}', body]
        b = self.p.bank(shape if self.chance(0.8) or shape[0] == SCL else shape, n, self.newdom('bnd'))
        self.loop = b
        body = self.expr(shape, cls, max(d - 1, 1))
        t = 0
        while (body[0] in ('v', 'el', 'hd', 'tl', 'it', 'c') or is_const(self.p.d, body)) and t < 20:
            body = self.expr(shape, cls, max(d - 1, 1))
            t += 1
        self.loop = None
        if body[0] in ('v', 'el', 'hd', 'tl', 'it', 'c'):
            body = ['un', 'sin', body]
        if not any(x[0] == 'it' for x in nodes(body)):
            body = ['bin', '*', body, ['it', b]] if cls in ('real', 'bnd') else body
        return [kind, f'b{b}{style}', body]

    def try_op(self, shape, cls, d):
        r = self.r
        k = shape[0]
        x = r.random()
        if cls in ('real', 'bnd') and k == SCL and x < 0.30:
            o = self.c('sum', 'prod', 'norm', 'sum', 'sit', 'pit', 'det', 'ldet', 'stat')
            if o in ('sum', 'norm'):
                e = [o, self.expr(self.shape(self.c(VEC, MAT, VEC) if o == 'norm' or self.chance(0.9) else SCL), 'bnd', d - 1)]
                return e if cls == 'real' else ['un', 'sin', e]
            if o == 'prod':
                e = [o, self.expr(self.shape(self.c(VEC, VEC, MAT)), 'bnd', d - 1)]
                return e if cls == 'real' else ['un', 'tanh', e]
            if o in ('sit', 'pit'):
                e = self.iter_node(o, shape, 'bnd', d)
                return e if e is None or cls == 'real' else ['un', 'sin', e]
            if not self.lin and o in ('det', 'ldet'):
                return None
            if o == 'det':
                pol = self.c('default', 'FullPivLU', 'LDLT', 'LLT')
                e = ['det', pol, self.matexpr('sq' if pol in ('default', 'FullPivLU') and self.chance(0.7) else 'pd', d - 1)]
                return e if cls == 'real' else ['un', 'tanh', e]
            if o == 'ldet':
                pol = self.c('default', 'FullPivLU', 'LDLT', 'LLT')
                e = ['ldet', pol, self.matexpr('sq' if pol in ('default', 'FullPivLU') and self.chance(0.7) else 'pd', d - 1)]
                return e if cls == 'real' else ['un', 'sin', e]
            if not self.stats:
                return None
            e = self.stat(d)
            return e if cls == 'real' else ['un', 'atan', e]
        if self.lin and cls in ('real', 'bnd') and k != SCL and x < 0.22:
            if k == MAT and self.chance(0.4):
                e = ['tr', self.expr((MAT, shape[2], shape[1]), 'bnd', d - 1)]
                return e
            inner = self.rdim()
            a = (MAT, shape[1], inner)
            b = (VEC, inner, 0) if k == VEC else (MAT, inner, shape[2])
            if self.chance(self.consts):
                if self.chance(0.5):
                    e = ['dot', self.const_operand(a, 'bnd', d), self.expr(b, 'bnd', d - 1)]
                else:
                    e = ['dot', self.expr(a, 'bnd', d - 1), self.const_operand(b, 'bnd', d)]
            else:
                e = ['dot', self.expr(a, 'bnd', d - 1), self.expr(b, 'bnd', d - 1)]
            return e if cls == 'real' else ['un', 'sin', e]
        if self.iters and k != SCL and cls == 'real' and x < 0.28:
            return self.iter_node(self.c('sit', 'pit'), shape, 'bnd', d)
        if self.ifs and x > 0.93:
            return self.without_eq(self.branch, shape, cls, d)
        y = r.random()
        if cls == 'real':
            if y < 0.42:
                return self.unary(r.choice(self.un), shape, d)
            if y < 0.90:
                op = self.c('+', '-', '*', '*', '/')
                if op == '/':
                    a, b = self.operand_pair(shape, 'real', self.c('nz', 'pos'), d)
                else:
                    a, b = self.operand_pair(shape, 'real', 'real' if self.chance(0.6) else 'bnd', d)
                if op != '/' and self.chance(0.05) and b[0] in ('lit',) and a[0] != 'c':
                    b = ['int', self.c(1, 2, 3, -2)]
                return ['bin', op, a, b]
            n = self.c(0, 1, 2, 3, 4, -1, -2)
            return ['pow', n, self.expr(shape, 'nz' if n < 0 else 'bnd', d - 1)]
        if cls == 'bnd':
            f = self.c('sin', 'cos', 'tanh', 'erf', 'sigmoid', 'atan', 'neg', 'half', 'leaf', 'ulim')
            if f == 'leaf':
                return self.leaf(shape, cls)
            if f == 'neg':
                return ['un', 'neg', self.expr(shape, 'bnd', d - 1)]
            if f == 'half':
                return ['bin', '*', ['lit', 0.5], self.expr(shape, 'bnd', d - 1)]
            if f == 'ulim':
                return self.expr(shape, 'ulim', d - 1)
            return ['un', f, self.expr(shape, 'real', d - 1)]
        if cls == 'pos':
            f = self.c('exp', 'sqrt', 'sq', '+', '*', '/', 'sigmoid', 'cosh', 'leaf')
            if f == 'leaf':
                return self.leaf(shape, cls)
            if f == 'exp':
                return ['un', 'exp', self.expr(shape, 'bnd', d - 1)]
            if f == 'sigmoid':
                return ['un', 'sigmoid', self.expr(shape, 'bnd', d - 1)]
            if f == 'cosh':
                return ['un', 'cosh', self.expr(shape, 'bnd', d - 1)]
            if f == 'sqrt':
                return ['un', 'sqrt', self.expr(shape, 'pos', d - 1)]
            if f == 'sq':
                a = self.expr(shape, 'bnd', d - 1)
                return ['bin', '+', ['pow', 2, a], ['lit', self.lit('pos')]]
            a, b = self.operand_pair(shape, 'pos', 'pos', d)
            return ['bin', f, a, b]
        if cls == 'ulim':
            f = self.c('sin', 'tanh', 'leaf', '*')
            if f == 'leaf':
                return self.leaf(shape, cls)
            if f == '*':
                a, b = self.operand_pair(shape, 'ulim', 'ulim', d)
                return ['bin', '*', a, b]
            return ['bin', '*', ['un', f, self.expr(shape, 'bnd', d - 1)], ['lit', 0.9]]
        if cls == 'unit':
            if self.chance(0.5):
                return ['un', 'sigmoid', self.expr(shape, 'bnd', d - 1)]
            return self.leaf(shape, 'unit')
        if cls == 'nz':
            f = self.c('leaf', 'pos', 'neg')
            if f == 'leaf':
                return self.leaf(shape, cls)
            e = self.expr(shape, 'pos', d - 1)
            return e if f == 'pos' else ['un', 'neg', e]
        return None

    def matexpr(self, cls, d):
        n = self.rdim()
        return self.without_eq(self.mexp, n, cls, d)

    def mexp(self, n, cls, d):
        shape = (MAT, n, n)
        if d <= 0 or self.chance(0.45):
            return self.leaf(shape, cls)
        if cls == 'pd':
            f = self.c('scale', 'sum', 'gram', 'const')
            if f == 'scale':
                s = self.expr((SCL, 0, 0), 'pos', d - 1)
                e = self.mexp(n, 'pd', d - 1)
                return ['bin', '*', s, e] if self.chance(0.5) else ['bin', '*', e, s]
            if f == 'sum':
                return ['bin', '+', self.mexp(n, 'pd', d - 1), self.mexp(n, 'pd', d - 1)]
            if f == 'const':
                return ['bin', '+', self.leaf(shape, 'pd'), self.p.const(shape, 'pd', self.r.choice(self.forms), refresh=False)]
            m = self.rdim()
            x = self.leaf((MAT, n, m), 'bnd')
            return ['bin', '+', ['dot', x, ['tr', x]], self.leaf(shape, 'pd')]
        f = self.c('dot', 'tr', 'scale', 'pd')
        if f == 'dot':
            return ['dot', self.mexp(n, 'sq', d - 1), self.mexp(n, 'sq', d - 1)]
        if f == 'tr':
            return ['tr', self.mexp(n, 'sq', d - 1)]
        if f == 'pd':
            return self.mexp(n, 'pd', d - 1)
        return ['bin', self.c('*', '/'), self.mexp(n, 'sq', d - 1), self.expr((SCL, 0, 0), 'nz', d - 1)]

    def stat(self, d):
        return self.without_eq(self.stat_, d)

    def stat_(self, d):
        f = self.c('bern', 'normal', 'normal', 'cauchy', 'uniform', 'wishart')
        arg = lambda sh, cls: self.expr(sh, cls, min(d - 1, 1)) if not self.chance(self.consts) else \
            self.p.const(sh, self.newdom(cls), self.r.choice(self.forms) if sh[0] else self.c('raw', 'const'))
        S, n = (SCL, 0, 0), self.rdim()
        V = (VEC, n, 0)
        if f == 'bern':
            xs, ps = self.c((S, S), (V, S), (V, V))
            x = self.p.var(xs, 'bit') if self.chance(0.5) else self.p.const(xs, 'bit', 'const')
            return ['stat', f, x, self.expr(ps, 'unit', 1)]
        if f == 'wishart':
            M = (MAT, n, n)
            return ['stat', f, self.leaf(M, 'pd'), self.leaf(M, 'pd') if self.chance(0.7) else self.p.const(M, 'pd', 'const'),
                    ['lit', float(self.r.randint(5, 9))]]
        if f == 'normal' and self.chance(0.3):
            xs, ms = self.c((V, S), (V, V))
            return ['stat', f, self.expr(xs, 'bnd', 1), arg(ms, 'bnd'), self.mexp(n, 'pd', 1)]
        combos = {'normal': ['SSS', 'VSS', 'VVS', 'VSV', 'VVV'], 'cauchy': ['SSS', 'VSS', 'VVS', 'VSV', 'VVV'],
                  'uniform': ['SSS', 'VSS', 'VVS', 'VSV', 'VVV']}[f]
        c = self.r.choice(combos)
        sh = [V if q == 'V' else S for q in c]
        if f == 'uniform':
            return ['stat', f, self.expr(sh[0], 'ulim', 1),
                    ['bin', '-', self.expr(sh[1], 'ulim', 1), ['lit', 2.0]], ['bin', '+', self.expr(sh[2], 'ulim', 1), ['lit', 2.0]]]
        a = [arg(sh[0], 'bnd'), arg(sh[1], 'bnd'), self.expr(sh[2], 'pos', 1)]
        return ['stat', f] + a

    def root(self, k=None, depth=3):
        for _ in range(50):
            e = self.expr(self.shape(k), 'real', depth)
            if e[0] not in ('v', 'el', 'hd', 'tl', 'it', 'c', 'lit', 'int') and not is_const(self.p.d, e):
                return e
        return ['un', 'sin', self.leaf(self.shape(k), 'real')]


class Gen2(Gen):
    """constant-only expressions sharing the parent's program"""

    def __init__(self, parent):
        self.r, self.p = parent.r, parent.p
        self.maxvars, self.consts, self.forms = 0, 0.0, ('const', 'view')
        self.stats = self.iters = self.sub = False
        self.lin, self.ifs, self.un = parent.lin, parent.ifs, parent.un
        self.dims, self.hi, self.loop, self.domains = parent.dims, parent.hi, None, None
        self.noeq = 1

    def leaf(self, shape, cls):
        return self.cleaf(shape, cls, ad=True, fold=True)

    def const_operand(self, shape, cls, d):
        return self.cleaf(shape, cls, ad=True, fold=True)
