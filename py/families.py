"""Which programs each property is checked on."""
import random
from gen import *

S0 = (SCL, 0, 0)


def rng_for(*k):
    return random.Random('/'.join(str(x) for x in k))


def mk(own, **f):
    return Prog(own, **f)


class Own:
    """alternates between owning variables and views over caller memory"""
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n % 2 == 0


# ---------------------------------------------------------------- elementwise composites
def elementwise(rng, quick):
    own = Own()
    out = []
    for f in UN_ALL:
        for k in (SCL, VEC, MAT):
            for kind in (('leaf', 'expr', 'ext') if k != MAT else ('leaf', 'expr')):
                P = mk(own())
                d1, d2 = P.dim(1, 7), P.dim(1, 4)
                sh = (k, d1 if k else 0, d2 if k == MAT else 0)
                cls = UN_ARG[f]
                if kind == 'ext':
                    dom = {'log': 'extpos', 'sqrt': 'extpos', 'exp': 'extbnd', 'sinh': 'extbnd', 'cosh': 'extbnd', 'asin': 'extulim',
                           'acos': 'extulim', 'tan': 'ulim', 'sin': 'extreal', 'cos': 'extreal', 'neg': 'extreal'}.get(f, 'ext')
                    out.append(P.done(['un', f, P.var(sh, dom)]))
                    continue
                x = P.var(sh, cls if cls in ('pos', 'ulim') else 'real')
                if kind == 'expr':
                    y = P.var(sh, 'real')
                    arg = {'pos': ['bin', '+', ['bin', '*', y, y], x], 'ulim': ['bin', '*', ['un', 'sin', y], x],
                           'real': ['bin', '*', y, x], 'bnd': ['un', 'sin', ['bin', '+', y, x]]}[cls]
                    out.append(P.done(['bin', '*', ['un', f, arg], y]))
                else:
                    out.append(P.done(['un', f, x]))
    # every operator on every combination of shapes and operand kinds
    for op in '+-*/':
        for sa, sb in ((SCL, SCL), (SCL, VEC), (VEC, SCL), (VEC, VEC), (SCL, MAT), (MAT, SCL), (MAT, MAT)):
            for kind in ('leaves', 'exprs', 'cl', 'cr', 'same'):
                if kind == 'same' and sa != sb:
                    continue
                P = mk(own())
                d1, d2 = P.dim(1, 6), P.dim(1, 4)
                A = (sa, d1 if sa else 0, d2 if sa == MAT else 0)
                B = (sb, d1 if sb else 0, d2 if sb == MAT else 0)
                bd = 'nz' if op == '/' else 'real'
                if kind == 'same':
                    x = P.var(A, bd)
                    e = ['bin', op, ['un', 'sin', x] if op == '-' else x, x]
                elif kind == 'cl':
                    c = P.const(A, 'real', rng.choice(['raw', 'const', 'view' if sa else 'const']))
                    e = ['bin', op, c, ['un', 'neg', P.var(B, bd)]]
                elif kind == 'cr':
                    c = P.const(B, bd, rng.choice(['raw', 'const', 'view' if sb else 'const']))
                    e = ['bin', op, ['un', 'cos', P.var(A)], c]
                elif kind == 'leaves':
                    e = ['bin', op, P.var(A), P.var(B, bd)]
                else:
                    x, y = P.var(A), P.var(B, 'pos' if op == '/' else 'real')
                    e = ['bin', op, ['bin', '*', x, ['un', 'sin', x]], ['un', 'exp', ['un', 'sin', y]]]
                out.append(P.done(e))
            P = mk(own())                     # operands of any magnitude
            d1, d2 = P.dim(1, 4), P.dim(1, 3)
            A = (sa, d1 if sa else 0, d2 if sa == MAT else 0)
            B = (sb, d1 if sb else 0, d2 if sb == MAT else 0)
            out.append(P.done(['bin', op, P.var(A, 'far'), P.var(B, 'far')]))
    # subviews of one vector, overlapping
    for i in range(8):
        P = mk(own())
        n = P.dim(2, 7)
        m = P.dim(1, of=n)
        v = P.var((VEC, n, 0), 'pos')
        a, b = ['hd', v[1], m], ['tl', v[1], m]
        e = [['bin', '*', a, b], ['bin', '*', ['un', 'sin', a], P.el(v)], ['bin', '-', ['bin', '/', a, P.el(v)], b],
             ['bin', '+', ['sum', ['un', 'log', b]], P.el(v)], ['bin', '*', P.el(v), P.el(v)],
             ['bin', '*', ['un', 'exp', ['un', 'neg', a]], ['bin', '+', b, P.el(v)]],
             ['bin', '*', v, P.el(v)], ['bin', '*', ['sum', a], ['prod', b]]][i]
        out.append(P.done(e))
    for i in range(70 if quick else 160):
        g = Gen(rng, lin=False, iters=False, ifs=False, maxvars=rng.randint(1, 4), hi=6)
        if rng.random() < 0.4:
            g.dims.append(g.p.dim(1, of=g.dims[0]))
        out.append(g.p.done(g.root(k=rng.choice([SCL, VEC, VEC, MAT]), depth=rng.randint(2, 5))))
    return out


# ---------------------------------------------------------------- reductions
def reductions(rng, quick):
    own = Own()
    out = []
    for o in ('sum', 'prod', 'norm'):
        for k in (SCL, VEC, MAT):
            if o == 'norm' and k == SCL:
                continue
            for kind in range(7):
                P = mk(own())
                d1, d2 = P.dim(1, 6), P.dim(1, 4)
                sh = (k, d1 if k else 0, d2 if k == MAT else 0)
                x = P.var(sh, 'zreal')
                y = P.var(sh, 'zreal')
                z = P.var(S0, 'real')
                e = [[o, x], [o, ['bin', '*', x, y]], ['bin', '*', [o, ['un', 'sin', x]], z], ['un', 'sin', [o, ['bin', '+', x, y]]],
                     ['bin', '*', [o, x], [o, ['bin', '-', x, z]]], [o, ['bin', '*', ['un', 'neg', x], P.const(sh, 'zreal', 'const')]],
                     ['bin', '*', x, [o, x]]][kind]
                out.append(P.done(e))
    for o in ('sum', 'norm'):                                # elements of any magnitude
        for k in (VEC, MAT):
            P = mk(own())
            d1, d2 = P.dim(1, 4), P.dim(1, 2)
            out.append(P.done([o, P.var((k, d1, d2 if k == MAT else 0), 'far')]))
    for k in (VEC, MAT):                                     # two factors: their product may underflow, the gradient does not
        P = mk(own())
        out.append(P.done(['prod', P.var((k, P.dim(2, 2), P.dim(1, 1) if k == MAT else 0), 'far')]))
        P = mk(own())
        d1, d2, n = P.dim(1, 3), P.dim(1, 2), P.dim(2, 2)
        b = P.bank((k if k == MAT else SCL, d1 if k == MAT else 0, d2 if k == MAT else 0), n, 'far')
        out.append(P.done(['pit', f'b{b}d', ['un', 'neg', ['it', b]]]))
    for k in (SCL, VEC, MAT):
        P = mk(own())
        d1, d2, n = P.dim(1, 3), P.dim(1, 2), P.dim(1, 4)
        b = P.bank((k, d1 if k else 0, d2 if k == MAT else 0), n, 'far')
        out.append(P.done(['sit', f'b{b}d', ['un', 'neg', ['it', b]]]))
    for o in ('sit', 'pit'):
        for k in (SCL, VEC, MAT):
            for kind in range(9):
                for lo in ((1,) if k or kind not in (1, 3, 6) else (1, 0)):
                    P = mk(own())
                    d1, d2, n = P.dim(1, 4), P.dim(1, 3), P.dim(lo, 5)
                    sh = (k, d1 if k else 0, d2 if k == MAT else 0)
                    b = P.bank(sh, n, 'zreal')
                    it = ['it', b]
                    if kind == 0:
                        body, st = ['bin', '*', it, it], 'd'
                    elif kind == 1:
                        body, st = ['un', 'sin', it], 'd'
                    elif kind == 2:
                        body, st = ['bin', '*', P.var(sh, 'zreal'), it], 'd'
                    elif kind == 3:
                        b2 = P.bank(sh, n, 'zreal')
                        body, st = ['bin', '+', ['bin', '*', it, ['it', b2]], P.var(S0, 'real')], 'i'
                    elif kind == 4:
                        body, st = ['bin', '*', P.const(sh, 'zreal', 'raw' if k else 'const'), it], 'd'
                    elif kind == 5:
                        body, st = ['bin', '-', it, P.var(S0, 'zreal')], 'i'
                    elif kind == 6:
                        if k:
                            body, st = ['sum', ['bin', '*', it, it]], 'd'
                        else:
                            kb = P.vbank(n, 'zreal')
                            body, st = ['bin', '*', ['un', 'sin', P.var(S0)], ['itv', kb]], 'd'
                            out.append(P.done(['bin', '*', [o, f'k{kb}d', body], P.var(S0)]))
                            continue
                    elif kind == 7:
                        body, st = ['pow', 2, ['bin', '-', it, P.var(sh, 'zreal')]], 'i'
                    else:
                        body, st = (['bin', '*', ['prod', it], P.var(S0)] if k else ['bin', '*', it, P.var(S0, 'zreal')]), 'd'
                    e = [o, f'b{b}{st}', body]
                    if rng.random() < 0.6:
                        e = ['bin', rng.choice('*+-'), e, P.var(S0)]
                    if rng.random() < 0.3:
                        e = ['sum', e] if k else ['un', 'sin', e]
                    out.append(P.done(e))
    for i in range(36 if quick else 90):
        g = Gen(rng, lin=False, ifs=False, hi=5)
        sh = g.shape(rng.choice([SCL, VEC, MAT]))
        e = None
        while e is None:
            o = rng.choice(['sum', 'prod', 'norm', 'sit', 'pit'])
            if o in ('sit', 'pit'):
                e = g.iter_node(o, sh, 'bnd', 3)
            else:
                e = [o, g.expr(g.shape(rng.choice([VEC, MAT])), 'bnd', 2)]
        out.append(g.p.done(['bin', rng.choice('+-*'), e, g.expr(S0 if rng.random() < 0.5 else (sh if e[0] in ('sit', 'pit') else S0), 'real', 2)]))
    return out


# ---------------------------------------------------------------- linear algebra
def linalg(rng, quick):
    own = Own()
    out = []
    for k in (VEC, MAT):
        for kind in range(10):
            P = mk(own())
            r, m, c = P.dim(1, 5), P.dim(1, 5), P.dim(1, 4)
            A = (MAT, r, m)
            B = (VEC, m, 0) if k == VEC else (MAT, m, c)
            if kind == 0:
                e = ['dot', P.var(A), P.var(B)]
            elif kind == 1:
                e = ['dot', ['un', 'sin', P.var(A)], ['un', 'cos', P.var(B)]]
            elif kind < 5:
                e = ['dot', P.const(A, 'real', ['raw', 'const', 'view'][kind - 2]), P.var(B) if kind == 2 else ['un', 'sin', P.var(B)]]
            elif kind < 8:
                e = ['dot', P.var(A) if kind == 5 else ['un', 'sin', P.var(A)], P.const(B, 'real', ['raw', 'const', 'view'][kind - 5])]
            elif kind == 8:
                a, b = P.var(A), P.var(B)
                e = ['bin', '*', ['norm', ['dot', a, b]], ['sum', ['bin', '*', ['dot', a, b], ['dot', a, b]]]]
            else:
                x, y = P.var(A), P.var(B)
                e = ['dot', ['bin', '*', x, P.var(S0)], ['bin', '+', y, P.var(S0)]]
            out.append(P.done(e))
    for kind in range(12):
        P = mk(own())
        r, c, q = P.dim(1, 5), P.dim(1, 4), P.dim(1, 4)
        M, V = (MAT, r, c), (VEC, r, 0)
        e = [lambda: ['tr', P.var(M)], lambda: ['tr', P.var(V)], lambda: ['tr', ['un', 'sin', P.var(M)]], lambda: ['tr', ['bin', '*', P.var(V), P.var(S0)]],
             lambda: ['tr', ['tr', P.var(M)]], lambda: (lambda x: ['dot', x, ['tr', x]])(P.var(M)), lambda: (lambda x: ['dot', ['tr', x], x])(P.var(V)),
             lambda: ['dot', ['tr', P.var(M)], P.var(V)], lambda: ['dot', P.var(V) if False else ['dot', P.var((MAT, r, q)), P.var((MAT, q, c))], P.var((VEC, c, 0))],
             lambda: ['bin', '*', ['tr', P.var(M)], P.var((MAT, c, r))], lambda: ['sum', ['bin', '/', ['tr', P.var(V)], P.var(S0, 'nz')]],
             lambda: ['prod', ['tr', ['bin', '-', P.var(M), P.var(M)]]]][kind]()
        out.append(P.done(e))
    for o in ('det', 'ldet'):
        for pol, dom in (('default', 'sq'), ('FullPivLU', 'sq'), ('LDLT', 'pd'), ('LLT', 'pd'), ('LDLT', 'sym'), ('default', 'pd')):
            for kind in range(7):
                if dom == 'sym' and kind == 6:
                    continue
                P = mk(own())
                n, m = P.dim(1, 6), P.dim(1, 4)
                M = (MAT, n, n)
                far = o == 'ldet' and (kind in (0, 1, 4) or kind == 3 and dom != 'pd') and rng.random() < 0.5
                x = P.var(M, dom + ('~' if far else '-' if o == 'det' and kind in (0, 4) else ''))
                s = P.var(S0, 'pos')
                if kind == 0:
                    e = [o, pol, x]
                elif kind == 1:
                    e = ['bin', '*', [o, pol, ['bin', '*', x, s]], s]
                elif kind == 2:
                    y = P.var(M, 'pd')
                    e = [o, pol, ['bin', '+', x, y]] if dom == 'pd' else [o, pol, ['dot', x, y]] if dom == 'sq' else [o, pol, ['bin', '*', s, x]]
                elif kind == 3:
                    y = P.var((MAT, n, m), 'real')
                    e = [o, pol, ['bin', '+', ['dot', y, ['tr', y]], P.const(M, 'pd', 'const')]] if dom == 'pd' else [o, pol, ['tr', x]]
                elif kind == 4:
                    e = ['bin', '*', ['un', 'sin', P.var(S0)], ['un', 'atan', [o, pol, x]]]
                elif kind == 5:
                    c = P.const(M, dom + ('~' if o == 'ldet' else ''), rng.choice(['const', 'view']))
                    e = ['bin', '*', ['un', 'sin', P.var(S0)], [o, pol, c]]
                else:
                    c = P.const(M, 'pd', rng.choice(['raw', 'const', 'view']))
                    e = [o, pol, ['bin', '+', x, c]] if dom == 'pd' else [o, pol, ['dot', c, x]]
                out.append(P.done(e))
    for i in range(50 if quick else 120):
        g = Gen(rng, iters=False, ifs=False, hi=5, maxdims=2, un=['sin', 'cos', 'neg', 'tanh', 'exp'])
        o = rng.choice(['dot', 'dot', 'det', 'ldet', 'tr'])
        n, m, q = g.rdim(), g.rdim(), g.rdim()
        if o == 'dot':
            b = g.c((VEC, m, 0), (MAT, m, q))
            e = ['dot', g.expr((MAT, n, m), 'bnd', 2), g.expr(b, 'bnd', 2)]
        elif o == 'tr':
            e = ['tr', g.expr(g.c((VEC, m, 0), (MAT, m, q)), 'real', 2)]
        else:
            pol = g.c('default', 'FullPivLU', 'LDLT', 'LLT')
            e = [o, pol, g.mexp(n, g.c('sq', 'pd') if pol in ('default', 'FullPivLU') else 'pd', 3)]
        e = rng.choice([e, ['sum', e] if o in ('dot', 'tr') else ['un', 'neg', e], ['bin', '*', e, g.expr(S0, 'real', 1)]])
        out.append(g.p.done(e))
    return out


# ---------------------------------------------------------------- comparisons, logic, branching
def branching(rng, quick):
    own = Own()
    out = []
    for op in CMP:
        for sa, sb in ((SCL, SCL), (SCL, VEC), (VEC, SCL), (VEC, VEC), (SCL, MAT), (MAT, SCL), (MAT, MAT)):
            P = mk(own(), cmproot=1)
            d1, d2 = P.dim(1, 5), P.dim(1, 3)
            A = (sa, d1 if sa else 0, d2 if sa == MAT else 0)
            B = (sb, d1 if sb else 0, d2 if sb == MAT else 0)
            out.append(P.done(['bin', op, P.var(A, 'nanint'), P.var(B, 'nanint')]))
            P = mk(own())
            d1, d2 = P.dim(1, 5), P.dim(1, 3)
            A = (sa, d1 if sa else 0, d2 if sa == MAT else 0)
            B = (sb, d1 if sb else 0, d2 if sb == MAT else 0)
            cr = rng.random() < 0.5
            x = P.var(A, 'int') if cr else P.const(A, 'int', 'raw' if rng.random() < .5 else 'const')
            y = P.const(B, 'int', 'raw' if rng.random() < .5 else 'const') if cr else P.var(B, 'int')
            z = P.var(A if sa >= sb else B)
            out.append(P.done(['bin', '*', ['bin', op, x, y], ['un', 'sin', z]]))
        for sh in (SCL, VEC, MAT):
            P = mk(own(), rounds=3)
            d1, d2 = P.dim(1, 4), P.dim(1, 3)
            X = (sh, d1 if sh else 0, d2 if sh == MAT else 0)
            a, b, x, y = P.var(S0, 'nanint'), P.var(S0, 'nanint'), P.var(X), P.var(X)
            out.append(P.done(['if', ['bin', op, a, b], ['un', 'sin', x], ['bin', '*', x, y]]))
            P = mk(own(), rounds=3)
            d1, d2 = P.dim(1, 4), P.dim(1, 3)
            X = (sh, d1 if sh else 0, d2 if sh == MAT else 0)
            a, x, y = P.var(S0, 'nanint'), P.var(X), P.var(X, 'pos')
            out.append(P.done(['bin', rng.choice('+-*'), ['if', ['bin', op, a, ['lit', float(rng.randint(-1, 1))]], x, ['un', 'log', y]], ['un', 'cos', y]]))
    for op in LOGIC:
        for i in range(6):
            P = mk(own(), cmproot=1)
            d1, d2 = P.dim(1, 4), P.dim(1, 3)
            sh = (S0, (VEC, d1, 0), (MAT, d1, d2))[i % 3]
            dom = 'logic' if sh == S0 else 'bit'
            if i < 3:
                e = ['bin', op, P.var(sh, dom), P.var(sh, dom)]
            else:
                e = ['bin', op, ['bin', rng.choice(CMP), P.var(sh, 'int'), P.var(sh, 'int')], ['bin', rng.choice(CMP), P.var(sh, 'int'), P.var(S0, 'int')]]
            out.append(P.done(e))
            P = mk(own(), cmproot=1)
            d1, d2 = P.dim(1, 4), P.dim(1, 3)
            sh = ((VEC, d1, 0), (MAT, d1, d2))[i % 2]
            if i < 4:
                a, b = P.var(sh, 'bit'), P.var(S0, 'bit')
                out.append(P.done(['bin', op, a, b] if i < 2 else ['bin', op, b, a]))
            P = mk(own(), rounds=3)
            a, b, c = P.var(S0, 'int'), P.var(S0, 'int'), P.var(S0, 'logic')
            cond = [['bin', op, ['bin', '<', a, b], c], ['bin', op, ['bin', '==', a, b], ['bin', '>', a, ['lit', 0.0]]], ['bin', op, c, P.var(S0, 'logic')],
                    ['bin', op, ['bin', op, ['bin', '<=', a, b], c], ['bin', '!=', a, c]], ['bin', op, a, ['lit', 1.0]], ['bin', '<', a, ['bin', '*', b, c]]][i]
            out.append(P.done(['if', cond, ['bin', '*', a, b], ['un', 'sin', ['bin', '-', a, c]]]))
    # branches that update what the condition reads
    for i in range(9):
        P = mk(own(), rounds=3)
        d1, d2 = P.dim(1, 4), P.dim(1, 3)
        sh = (S0, (VEC, d1, 0), (MAT, d1, d2))[i % 3]
        y, z, u = P.var(sh), P.var(S0), P.var(S0, 'int')
        w = P.var(S0, 'phreal', 'ph') if i % 2 else P.var(S0, 'int')
        cond = ['bin', rng.choice(CMP), w, ['lit', float(rng.randint(-1, 1))]]
        up = ['op', rng.choice(['+=', '-=', '*=']), w, z]
        t = ['if', cond, ['bin', '*', up, y], ['un', 'sin', ['bin', '*', w, y]]]
        if i % 4 > 1:
            t = ['if', cond, ['un', 'sin', ['bin', '*', w, y]], ['bin', '*', y, up]]
        if i >= 6:
            t = ['gl', t, ['bin', '*', ['un', 'cos', w], y]]
        out.append(P.done(['gl', ['eq', w, ['bin', '*', u, z]], t] if i % 2 else t))
    # constant conditions and branches, nesting, branch of any node kind
    for i in range(12):
        P = mk(own(), rounds=3)
        d1, d2 = P.dim(1, 4), P.dim(1, 3)
        sh = (S0, (VEC, d1, 0), (MAT, d1, d2))[i % 3]
        a, b, x = P.var(S0, 'int'), P.var(S0, 'int'), P.var(sh)
        c = P.const(sh, 'real', 'const')
        if i < 3:
            e = ['if', ['bin', '<', a, b], c, ['un', 'sin', x]]
        elif i < 6:
            e = ['if', ['bin', '>=', a, b], ['bin', '*', x, x], c]
        elif i < 9:
            e = ['if', P.const(S0, 'bit', 'const'), ['un', 'sin', x], ['un', 'exp', x]]
        else:
            e = ['if', ['bin', '<', a, b], ['if', ['bin', '<', a, ['lit', 0.0]], ['un', 'sin', x], ['bin', '*', x, a]], ['bin', '*', ['if', ['bin', '==', a, b], x, ['un', 'neg', x]], b]]
        out.append(P.done(e if i % 2 else ['bin', '*', e, P.var(S0)]))
    for i in range(44 if quick else 110):
        g = Gen(rng, hi=4)
        k = rng.choice([SCL, SCL, VEC, MAT])
        sh = g.shape(k)
        e = ['if', g.cond(2), g.expr(sh, 'real', 2), g.expr(sh, 'real', 2)]
        t = rng.random()
        if t < 0.3:
            e = ['bin', rng.choice('+-*'), e, g.expr(sh, 'bnd', 2)]
        elif t < 0.5:
            e = ['bin', '*', g.expr(S0, 'bnd', 1), ['un', 'sin', e]]
        elif t < 0.65:
            e = ['sum', e]
        out.append(g.p.done(e, rounds=3))
    return out


# ---------------------------------------------------------------- powers
def powers(rng, quick):
    own = Own()
    out = []
    for n in list(range(-6, 10)) + [10, 11, 12, 13, 14, 15, 16, 17, 20, 22, 31, 32, 33, 47, 50, 63, 64, 65, 66, 70, 100, 127, 128, 129, 200, -7, -8, -9, -10, -12, -15, -20, -32, -33, -64, -65, -70]:
        for k in (SCL, VEC, MAT):
            for kind in (range(3) if abs(n) < 6 else (n % 2,)):
                P = mk(own())
                d1, d2 = P.dim(1, 5), P.dim(1, 3)
                sh = (k, d1 if k else 0, d2 if k == MAT else 0)
                dom = 'nz' if n < 0 else 'zreal'
                x, y = P.var(sh, dom), P.var(sh, 'real')
                if kind == 0:
                    e = ['pow', n, x]
                elif kind == 1:
                    e = ['bin', '*', ['pow', n, ['bin', '*', x, P.var(S0, 'nz')]], y]
                else:
                    e = ['un', 'sin', ['pow', n, ['un', 'neg', x]]] if n >= 0 else ['bin', '+', ['pow', n, ['bin', '/', x, P.const(S0, 'nz', 'raw')]], ['pow', 2, x]]
                out.append(P.done(e))
    for n in (-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6):         # arguments of any magnitude
        for k in (SCL, VEC, MAT):
            P = mk(own())
            d1, d2 = P.dim(1, 4), P.dim(1, 3)
            out.append(P.done(['pow', n, P.var((k, d1 if k else 0, d2 if k == MAT else 0), 'far')]))
    for n in (-2, -1, 0, 1, 2, 3, 5):
        for k in (SCL, VEC, MAT):
            P = mk(own())
            d1, d2 = P.dim(1, 5), P.dim(1, 3)
            sh = (k, d1 if k else 0, d2 if k == MAT else 0)
            c = P.const(sh, 'nz' if n < 0 else 'zreal', 'const')
            out.append(P.done(['bin', '*', ['pow', n, c], ['un', 'sin', P.var(sh)]]))
    for i in range(30 if quick else 90):
        g = Gen(rng, hi=4, ifs=False)
        n = rng.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5])
        sh = g.shape()
        e = ['pow', n, g.expr(sh, 'nz' if n < 0 else 'bnd', 2)]
        if rng.random() < 0.5:
            e = ['bin', rng.choice('+-*'), e, g.expr(sh, 'bnd', 2)]
        if rng.random() < 0.3:
            m = rng.choice([2, 3, 1, 0])
            e = ['pow', m, ['un', 'sin', e]]
        out.append(g.p.done(e))
    return out


# ---------------------------------------------------------------- constants
def constants(rng, quick):
    own = Own()
    out = []

    def shp(P, k):
        d1, d2 = P.dim(1, 5), P.dim(1, 3)
        return (k, d1 if k else 0, d2 if k == MAT else 0)
    # folded constant operators against the reference, next to a variable and alone
    for f in UN_ALL:
        for k in (SCL, VEC, MAT):
            P = mk(own())
            sh = shp(P, k)
            cls = UN_ARG[f]
            c = P.const(sh, cls if cls in ('pos', 'ulim') else 'real', rng.choice(['const', 'view']) if k else 'const')
            out.append(P.done(['bin', rng.choice('*+-'), ['un', f, c], P.var(sh)]))
    for op in list('+-*/') + CMP + LOGIC:
        for sa, sb in ((SCL, SCL), (SCL, VEC), (VEC, SCL), (VEC, VEC), (MAT, MAT), (SCL, MAT), (MAT, SCL)):
            if (op in CMP or op in LOGIC) and not (sa == SCL and sb == SCL):
                continue
            P = mk(own())
            d1, d2 = P.dim(1, 5), P.dim(1, 3)
            A = (sa, d1 if sa else 0, d2 if sa == MAT else 0)
            B = (sb, d1 if sb else 0, d2 if sb == MAT else 0)
            a = P.const(A, 'int' if op in CMP else 'logic' if op in LOGIC else 'real', rng.choice(['const', 'view']) if sa else 'const')
            b = P.const(B, 'int' if op in CMP else 'logic' if op in LOGIC else 'nz', rng.choice(['const', 'view', 'raw']) if sb else rng.choice(['raw', 'const']))
            e = ['bin', op, a, b]
            if op in CMP or op in LOGIC:
                x = P.var(S0)
                out.append(P.done(['if', e, ['un', 'sin', x], ['un', 'exp', x]]))
            else:
                out.append(P.done(['bin', '*', e, P.var(A if sa >= sb else B)]))
    for k in (VEC, MAT):
        for o in ('sum', 'prod', 'norm', 'tr', 'dot', 'if', 'pow', 'det', 'ldet', 'sitk', 'pitk', 'sitb', 'pitb'):
            if o in ('det', 'ldet', 'dot') and k == VEC and o != 'dot':
                continue
            P = mk(own())
            d1, d2, n = P.dim(1, 4), P.dim(1, 3), P.dim(1, 4)
            sh = (VEC, d1, 0) if k == VEC else (MAT, d1, d2)
            c = P.const(sh, 'real', rng.choice(['const', 'view']))
            x = P.var(S0)
            if o in ('sum', 'prod', 'norm'):
                e = ['bin', '*', [o, c], x]
            elif o == 'tr':
                e = ['bin', '*', ['tr', c], x]
            elif o == 'dot':
                a = P.const((MAT, n, d1), 'real', 'const')
                e = ['bin', '*', ['dot', a, c], x]
            elif o == 'if':
                e = ['bin', '*', ['if', P.const(S0, 'bit', 'const'), c, P.const(sh, 'real', 'const')], x]
            elif o == 'pow':
                e = ['bin', '*', ['pow', 3, c], x]
            elif o in ('det', 'ldet'):
                m = P.const((MAT, d1, d1), 'sq', rng.choice(['const', 'view']))
                e = ['bin', '*', [o, 'default', m], x]
            elif o[3] == 'k':
                kb = P.vbank(n, 'real')
                e = ['bin', '*', [o[:3], f'k{kb}d', ['bin', '+', ['itv', kb], P.const(S0, 'real', 'const')]], x]
            else:
                b = P.bank(sh, n, 'real')
                e = ['bin', '*', [o[:3], f'b{b}d', ['bin', '*', P.const(sh, 'real', 'const'), P.const(S0, 'real', 'const')]], x]
            out.append(P.done(e))
    # ranges of constants whose partial results may be zero
    for k in (SCL, SCL, SCL, VEC, MAT):
        for o in ('sit', 'pit'):
            P = mk(own())
            n = P.dim(1, 7)
            sh = shp(P, k)
            kb = P.vbank(n, 'int')
            c = P.const(sh, 'real' if k else 'bit', 'const')
            out.append(P.done(['bin', '*', [o, f'k{kb}d', ['bin', rng.choice('+*'), ['itv', kb], c]], P.var(S0)]))
    # everything but one variable folds
    for k in (SCL, VEC, MAT):
        for f in ('sin', 'exp', 'neg'):
            P = mk(own())
            sh = shp(P, k)
            out.append(P.done(['bin', '+', ['un', f, ['bin', '+', P.const(sh, 'real', 'const'), P.const(sh, 'real', 'raw')]], P.var(S0)]))
    # int, bool and float literals beside expressions
    for op in '+-*/':
        for lit in (1, 2, -3):
            for left in (0, 1):
                for k in (SCL, VEC):
                    P = mk(own())
                    sh = shp(P, k)
                    x = ['un', 'exp', ['un', 'sin', P.var(sh)]]
                    out.append(P.done(['bin', op, ['int', lit], x] if left else ['bin', op, x, ['int', lit]]))
    # views of constants that are rewritten between evaluations
    for k in (VEC, MAT):
        for kind in range(8):
            P = mk(own(), rounds=4)
            d1, d2 = P.dim(1, 5), P.dim(1, 3)
            sh = (k, d1, d2 if k == MAT else 0)
            c = P.const(sh, 'nz', 'view', refresh=True)
            x = P.var(sh)
            e = [lambda: ['bin', '*', c, x], lambda: ['bin', '/', x, c], lambda: ['un', 'sin', ['bin', '-', x, c]], lambda: ['sum', ['bin', '*', ['bin', '+', x, c], c]],
                 lambda: ['dot', P.const((MAT, d2, d1), 'real', 'view', refresh=True), x], lambda: ['prod', ['bin', '*', c, x]],
                 lambda: ['if', ['bin', '<', P.var(S0, 'int'), ['lit', 0.0]], c, ['un', 'sin', x]], lambda: ['norm', ['bin', '-', x, c]]][kind]()
            out.append(P.done(e))
    for i in range(44 if quick else 110):
        g = Gen(rng, hi=5, consts=0.55)
        out.append(g.p.done(g.root(depth=rng.randint(2, 4)), rounds=3))
    return out


# ---------------------------------------------------------------- densities
PAT = {'normal': ['SSS', 'VSS', 'VVS', 'VSV', 'VVV', 'VSM', 'VVM'], 'cauchy': ['SSS', 'VSS', 'VSV', 'VVS', 'VVV'],
       'uniform': ['SSS', 'VSS', 'VSV', 'VVS', 'VVV'], 'bern': ['SS', 'VS', 'VV'], 'wishart': ['MMS']}
DOM = {'normal': ['sx', 'sx', 'sscale'], 'cauchy': ['sx', 'sx', 'sscale'], 'uniform': ['sx', 'lo', 'hi'], 'bern': ['trial', 'prob'],
       'wishart': ['spdx', 'spdx', 'n']}


def density(name, rng, quick):
    own = Own()
    out = []

    def shp(P, ch, n):
        return S0 if ch == 'S' else (VEC, n, 0) if ch == 'V' else (MAT, n, n)

    def arg(P, i, ch, n, kind, off=False):
        """kind: v variable, e expression, r/c/w raw, constant, view; off: values far from zero but near each other"""
        sh, dom = shp(P, ch, n), DOM[name][i]
        if off and i < 2:
            dom = 'sxo'
            if kind == 'e':
                return ['bin', '+', P.var(sh, dom), P.var(S0, 'ulim')]
        if dom == 'n':
            return ['lit', rng.choice([float(rng.randint(1, 9)), rng.randint(1, 17) / 2, rng.randint(1, 40) / 8])]
        if ch == 'M':
            dom = rng.choice(['spdx', 'spdx~'])
        if kind != 'e' and rng.random() < 0.35 and (name == 'uniform' or name == 'bern' and i == 0):
            dom += '?'                     # now and then NaN, which lies in no support
        if kind == 'v':
            return P.var(sh, dom)
        if kind == 'e':
            x = P.var(sh, dom)
            if name == 'bern' and i == 0:
                return ['un', 'neg', ['un', 'neg', x]]
            if ch == 'M':
                return ['bin', '*', x, P.var(S0, 'pos')] if rng.random() < 0.6 else ['bin', '+', x, P.var(sh, 'pd')]
            if name == 'uniform' or name == 'bern':
                return ['bin', '+', x, ['bin', '*', P.var(S0, 'ulim'), ['lit', 0.125]]] if name == 'uniform' else ['bin', '*', x, ['bin', '/', ['lit', 2.0], ['lit', 2.0]] if False else P.var(S0, 'unit')]
            return ['bin', '*', x, P.var(S0, 'pos')] if i == 2 else ['un', 'sin', x] if rng.random() < 0.5 else ['bin', '*', x, P.var(sh, 'nz')]
        form = {'r': 'raw', 'c': 'const', 'w': 'view'}[kind]
        if sh == S0 and form == 'view':
            form = 'const'
        return P.const(sh, dom, form)
    flags = dict(rounds=6)
    if name == 'bern':
        flags['looseneg'] = 1
    for pat in PAT[name]:
        m = len(pat)
        combos = set()
        kinds = 'vec'                      # variable, expression, constant
        if name == 'wishart':
            combos = {a + b + 'c' for a in 'vec' for b in 'vec'}
        else:
            for t in range(len(kinds) ** m):
                s, u = '', t
                for _ in range(m):
                    s += kinds[u % 3]
                    u //= 3
                combos.add(s)
        for kk in sorted(combos):
            rep = 1 if m == 3 and name != 'wishart' else 2
            if all(x == 'c' for x in (kk[:2] if name == 'wishart' else kk)):
                rep = 1
            for _ in range(rep):
                P = mk(own(), **flags)
                n = P.dim(1, 5 if 'M' not in pat else 4)
                off = name in ('normal', 'cauchy') and rng.random() < 0.3
                a = [arg(P, i, ch, n, rng.choice('crw') if k == 'c' else k, off) for i, (ch, k) in enumerate(zip(pat, kk))]
                if all(is_raw(x) for x in a):
                    a = [['c', x[1], 'const'] if x[0] == 'c' else x for x in a]
                if all(x[0] == 'lit' or (x[0] == 'c' and x[2] == 'raw') for x in a):
                    continue
                e = ['stat', name] + a
                t = rng.random()
                if t < 0.25:
                    e = ['bin', '+', e, ['un', 'sin', P.var(S0)]]
                elif t < 0.4:
                    e = ['bin', '-', ['un', 'sin', P.var(S0)], e]
                out.append(P.done(e))
    # densities inside larger programs
    for i in range(14 if quick else 40):
        P = mk(own(), **flags)
        n = P.dim(1, 4)
        pats = [rng.choice(PAT[name]) for _ in range(2)]
        es = []
        for pat in pats:
            a = [arg(P, j, ch, n, rng.choice('vvve') if j < 2 else rng.choice('vec')) for j, ch in enumerate(pat)]
            es.append(['stat', name] + a)
        out.append(P.done(['bin', rng.choice('+-'), ['bin', '*', es[0], ['lit', 0.5]], es[1]]))
    # many observations through sum over a collection
    for i in range(4):
        pat = PAT[name][0]
        P = mk(own(), **flags)
        n, d = P.dim(1, 4), P.dim(1, 4)
        b = P.bank(shp(P, pat[0], d), n, {'trial': 'bit', 'spdx': 'pd'}.get(DOM[name][0], DOM[name][0]))
        rest = [arg(P, j, ch, d, 'v' if not (name == 'wishart' and j == 2) else 'c') for j, ch in enumerate(pat) if j]
        out.append(P.done(['sit', f'b{b}d', ['stat', name, ['it', b]] + rest]))
    return out


# ---------------------------------------------------------------- placeholders
class PhGen(Gen):
    """statements that assign placeholders, later expressions that use them"""

    def __init__(self, rng, **k):
        super().__init__(rng, **k)
        self.avail = {}
        self.noeq = 0
        self.peq = rng.choice([0, 0.1, 0.3])

    def wrap(self, e, shape, cls):
        """assignment as an operand: (w = e) inside a larger expression; w may be read to its right"""
        if self.noeq or self.loop is not None or cls not in ('real', 'bnd') or not self.chance(self.peq) or is_const(self.p.d, e) or is_raw(e):
            return e
        if e[0] in ('v', 'el', 'hd', 'tl', 'it', 'c', 'eq'):
            return e
        dom = 'real' if cls == 'bnd' else 'phreal'
        w = self.p.var(shape, dom, 'ph')
        self.avail[w[1]] = (shape, dom)
        if self.chance(0.25):                                # a sequence as operand
            return ['gl', ['eq', w, e], ['un', 'sin', w] if cls == 'bnd' else ['bin', '*', w, ['lit', 0.75]]]
        return ['eq', w, e]

    def leaf(self, shape, cls):
        c = [i for i, (sh, dom) in self.avail.items() if sh == shape and cls in (('real', 'bnd') if dom == 'real' else ('real',))]
        if c and self.chance(0.6):
            return ['v', self.r.choice(c)]
        if shape[0] == SCL and cls == 'real' and self.chance(0.15):
            vs = [i for i, (sh, dom) in self.avail.items() if sh[0] == VEC]
            if vs:
                return self.p.el(['v', self.r.choice(vs)])
        return super().leaf(shape, cls)

    def rhs(self, shape, cls, d, tries=30):
        for _ in range(tries):
            keep = dict(self.avail)
            e = self.expr(shape, cls, d)
            if e[0] not in ('v', 'el', 'hd', 'tl', 'it', 'c', 'lit', 'int') and not is_const(self.p.d, e):
                return e
            self.avail = keep
        return ['un', 'sin', Gen.leaf(self, shape, 'real')]

    def assign(self, d=3):
        shape = self.shape()
        cls = self.c('real', 'bnd')
        e = self.rhs(shape, cls, d)
        dom = 'real' if cls == 'bnd' else 'phreal'
        w = self.p.var(shape, dom, 'ph')
        st = ['eq', w, e]
        if self.chance(0.12):                                # chained: u = (w = e)
            w2 = self.p.var(shape, dom, 'ph')
            st = ['eq', w2, st]
            self.avail[w2[1]] = (shape, dom)
        self.avail[w[1]] = (shape, dom)
        return st

    def glue(self, sts):
        if len(sts) == 1:
            return sts[0]
        if self.chance(0.5):
            e = sts[0]
            for s in sts[1:]:
                e = ['gl', e, s]
            return e
        if self.chance(0.5):
            e = sts[-1]
            for s in reversed(sts[:-1]):
                e = ['gl', s, e]
            return e
        k = self.r.randint(1, len(sts) - 1)
        return ['gl', self.glue(sts[:k]), self.glue(sts[k:])]


def ph_program(rng, **k):
    g = PhGen(rng, **k)
    sts = [g.assign(rng.randint(1, 3)) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.25:
        sts.append(ph_loop(g))
    keep = dict(g.avail)
    fin = g.rhs(g.shape(), 'real', rng.randint(1, 3)) if rng.random() < 0.8 else g.assign(2)
    for t in range(6):
        used = {x[1] for x in nodes(fin) if x[0] in ('v', 'el')}
        if used & set(keep):
            break
        g.avail = dict(keep)
        fin = g.rhs(g.shape(), 'real', 2)
    return g.p.done(g.glue(sts + [fin]))


def ph_loop(g):
    """for_each over a bank of placeholders, optionally chained through the previous one"""
    shape = g.c(S0, (VEC, g.rdim(), 0))
    n = g.p.dim(1, 4)
    lb = g.p.bank(shape, n, 'real')
    pb = g.p.bank(shape, n, 'real', 'ph')
    g.loop = lb
    body = ['bin', '*', ['it', lb], g.expr(shape, 'bnd', 1)]
    if g.chance(0.6):
        v = g.p.var(shape, 'real')
        body = ['bin', g.c('+', '*', '-'), ['un', 'sin', ['itprev', pb, v[1]]], body]
    g.loop = None
    return ['fe', f'b{pb}i', ['eq', ['it', pb], body]]


def nested_assign(own, shp):
    """assignments as operands, the placeholder read again to the right"""
    out = []
    for k in (SCL, VEC, MAT):
        for i in range(9):
            P = mk(own())
            sh = shp(P, k)
            x, z = P.var(sh), P.var(S0)
            w, u = P.var(sh, 'real', 'ph'), P.var(sh, 'real', 'ph')
            a = ['eq', w, [['un', 'sin', x], ['bin', '*', x, z], ['bin', '-', ['un', 'exp', ['un', 'sin', x]], z]][i % 3]]
            e = [lambda: ['bin', '*', a, w], lambda: ['bin', '*', a, ['bin', '+', ['un', 'sin', w], w]], lambda: ['bin', '-', ['bin', '*', x, a], ['bin', '*', w, w]],
                 lambda: ['gl', ['eq', u, ['bin', '*', x, ['lit', 2.0]]], ['bin', '*', ['eq', w, ['un', 'sin', u]], ['bin', '*', w, u]]],
                 lambda: ['gl', ['eq', u, ['bin', '*', a, ['un', 'cos', w]]], ['bin', '+', ['bin', '*', u, w], ['un', 'sin', w]]],
                 lambda: ['bin', '*', ['un', 'sin', a], ['bin', '/', ['un', 'cos', w], ['bin', '+', ['pow', 2, w], ['lit', 1.0]]]],
                 lambda: ['bin', '+', ['pow', 3, a], ['bin', '*', ['eq', u, ['bin', '*', w, w]], ['bin', '-', u, w]]],
                 lambda: ['sum', ['bin', '*', a, w]] if k else ['bin', '*', a, ['bin', '*', w, w]],
                 lambda: ['norm', ['bin', '*', a, ['un', 'exp', ['un', 'sin', w]]]] if k else ['bin', '/', a, ['bin', '+', ['bin', '*', w, w], ['lit', 2.0]]]][i]()
            out.append(P.done(e))
    return out


def branch_assign(own, shp, what, rng):
    """a statement that assigns in the branch it takes; what follows reads what was assigned"""
    out = []
    for k in (SCL, VEC, MAT):
        for i in range(4):
            P = mk(own(), rounds=2)
            sh = shp(P, k)
            x, y, z, c = P.var(sh), P.var(sh), P.var(S0, 'nz'), P.var(S0, 'int')
            w, u = P.var(sh, 'real', 'ph'), P.var(sh, 'phreal', 'ph')
            cond = ['bin', rng.choice(['<', '>=', '==', '!=']), c, ['lit', float(rng.randint(-1, 1))]]
            ops = ['+=', '-=', '*=']
            if what == 'eq':
                st = ['if', cond, ['eq', w, ['bin', '*', x, y]], ['eq', w, ['bin', '*', x, z]]]
                if i % 2:
                    st = ['gl', st, ['eq', u, ['bin', '*', w, ['un', 'sin', w]]]]
                use = [['bin', '*', w, ['lit', 5.0]], ['bin', '*', u, w], ['sum', ['bin', '*', w, w]] if k else ['bin', '*', w, w], ['bin', '-', ['un', 'sin', u], x]][i]
            elif what == 'mixed':
                st = ['gl', ['eq', w, ['bin', '*', x, z]], ['if', cond, ['op', rng.choice(ops), w, y], ['op', rng.choice(ops), w, ['bin', '*', x, z]] if i % 2 else x]]
                use = [['bin', '*', w, ['lit', 5.0]], ['bin', '*', w, y], ['bin', '*', w, w], ['bin', '-', ['un', 'sin', w], x]][i]
            elif k == SCL and i % 2:                         # the condition is the updated variable itself
                x = P.var(S0, 'zreal')
                st = ['if', x, ['op', rng.choice(['+=', '-=']), x, rng.choice([x, y])], ['op', '+=', x, z]]
                use = [['bin', '*', x, ['lit', 5.0]], ['bin', '*', x, y]][i // 2]
            else:
                st = ['if', cond, ['op', rng.choice(ops), x, y], ['op', rng.choice(ops), x, ['bin', '*', x, z]]]
                use = [['bin', '*', x, ['lit', 5.0]], ['bin', '*', x, y], ['bin', '*', x, x], ['un', 'sin', x]][i]
            out.append(P.done(['gl', st, use]))
    return out


def placeholders(rng, quick):
    own = Own()
    out = []

    def shp(P, k):
        d1, d2 = P.dim(1, 4), P.dim(1, 3)
        return (k, d1 if k else 0, d2 if k == MAT else 0)
    # every kind of expression as the right-hand side of a placeholder, used twice afterwards
    def roots(P, k):
        sh = shp(P, k)
        x, y = P.var(sh), P.var(sh)
        z = P.var(S0)
        r = [['un', 'sin', x], ['bin', '*', x, y], ['bin', '/', z, ['bin', '+', ['pow', 2, x], ['lit', 1.0]]], ['pow', 0, x], ['pow', 1, x], ['pow', 3, x],
             ['if', ['bin', '<', z, ['lit', 0.5]], x, ['bin', '*', x, y]], ['bin', '<', x, y]]
        n = P.dim(1, 3)
        b = P.bank(sh, n)
        r += [['sit', f'b{b}d', ['un', 'sin', ['it', b]]], ['pit', f'b{b}d', ['bin', '*', ['it', b], z]]]
        if k == SCL:
            m = P.dim(1, 4)
            v, M = P.var((VEC, m, 0)), P.var((MAT, m, m), 'sq')
            pd = P.var((MAT, m, m), 'pd')
            r += [['sum', v], ['prod', v], ['norm', v], ['det', 'default', M], ['ldet', 'default', M], ['det', 'LLT', pd], ['ldet', 'LDLT', pd], ['sum', ['un', 'exp', v]],
                  ['prod', ['un', 'sin', v]], ['norm', ['un', 'sin', v]], ['stat', 'normal', v, x, P.var(S0, 'pos')], ['stat', 'cauchy', v, x, P.var(S0, 'pos')],
                  ['stat', 'uniform', P.var(S0, 'ulim'), ['bin', '-', P.var(S0, 'ulim'), ['lit', 2.0]], ['bin', '+', P.var(S0, 'ulim'), ['lit', 2.0]]],
                  ['stat', 'bern', P.var((VEC, m, 0), 'bit'), P.var(S0, 'unit')], ['stat', 'wishart', pd, P.var((MAT, m, m), 'pd'), ['lit', 7.0]],
                  ['stat', 'normal', v, ['un', 'sin', v], pd], P.el(v) and ['bin', '*', P.el(v), z]]
        elif k == VEC:
            m = P.dim(1, 3)
            r += [['dot', P.var((MAT, sh[1], m)), P.var((VEC, m, 0))]]
        else:
            m = P.dim(1, 3)
            r += [['dot', P.var((MAT, sh[1], m)), P.var((MAT, m, sh[2]))], ['tr', P.var((MAT, sh[2], sh[1]))]]
        return sh, x, z, r
    for k in (SCL, VEC, MAT):
        count = len(roots(mk(True), k)[3])
        for i in range(count):
            P = mk(own())
            sh, x, z, r = roots(P, k)
            w = P.var(sh, 'real', 'ph')
            use = [['bin', '*', ['un', 'sin', w], ['bin', '+', w, x]], ['bin', '-', ['bin', '*', w, w], ['bin', '*', w, x]]][i % 2]
            if r[i][0] == 'stat' and r[i][1] == 'wishart':
                use = ['bin', '*', ['un', 'sin', w], x]
            out.append(P.done(['gl', ['eq', w, r[i]], use]))
            if i % 3 == 0 or r[i][0] in ('prod', 'if', 'sum', 'norm'):
                P = mk(own())
                sh, x, z, r = roots(P, k)
                w, w2 = P.var(sh, 'real', 'ph'), P.var(sh, 'real', 'ph')
                out.append(P.done(['gl', ['gl', ['eq', w, r[i]], ['eq', w2, ['bin', '*', w, ['un', 'cos', w]]]], ['sum', ['bin', '+', ['bin', '*', w2, w], w2]]] if i % 2 else
                                  ['gl', ['eq', w, r[i]], ['gl', ['eq', w2, ['un', 'sin', w]], ['bin', '*', w2, w]]]))
    out += nested_assign(own, shp)
    out += branch_assign(own, shp, 'eq', rng) + branch_assign(own, shp, 'mixed', rng)
    # the program is a bare assignment
    for k in (SCL, VEC, MAT):
        P = mk(own())
        sh = shp(P, k)
        out.append(P.done(['eq', P.var(sh, 'real', 'ph'), ['bin', '*', P.var(sh), P.var(sh)]]))
    # loops
    for i in range(12 if quick else 30):
        g = PhGen(rng, hi=3, maxdims=2)
        lp = ph_loop(g)
        pb = int(lp[1][1:-1])
        d = g.p.d
        b = d['banks'][pb]
        t = i % 4
        if t == 0:
            e = ['gl', lp, ['sit', f'b{pb}d', ['un', 'sin', ['it', pb]]]]
        elif t == 1:
            e = ['gl', lp, ['pit', f'b{pb}i', ['bin', '+', ['it', pb], ['lit', 2.0]]]]
        elif t == 2:
            e = lp
        else:
            st = g.assign(2)
            e = ['gl', st, ['gl', lp, ['sit', f'b{pb}d', ['bin', '*', ['it', pb], ['it', pb]]]]]
        out.append(g.p.done(e))
    # loops, possibly over nothing at all
    for k in (SCL, VEC, MAT):
        P = mk(own())
        sh = shp(P, k)
        n = P.dim(0, 3)
        b, pb = P.bank(sh, n, 'real'), P.bank(sh, n, 'real', 'ph')
        w, z = P.var(sh, 'real', 'ph'), P.var(S0)
        out.append(P.done(['gl', ['gl', ['eq', w, ['un', 'sin', P.var(sh)]], ['fe', f'b{pb}i', ['eq', ['it', pb], ['bin', '*', ['it', b], ['bin', '*', w, z]]]]], ['bin', '*', w, w]]))
        if k == SCL:
            P = mk(own())
            n = P.dim(0, 4)
            b, pb = P.bank(S0, n, 'real'), P.bank(S0, n, 'real', 'ph')
            out.append(P.done(['gl', ['fe', f'b{pb}i', ['eq', ['it', pb], ['un', 'sin', ['it', b]]]], [rng.choice(['sit', 'pit']), f'b{pb}d', ['bin', '*', ['it', pb], ['it', pb]]]]))
    # a sequence wherever an expression may stand
    for k in (SCL, VEC, MAT):
        for i in range(12):
            P = mk(own())
            sh = shp(P, k)
            x, y, z = P.var(sh), P.var(sh), P.var(S0)
            w, u = P.var(sh, 'real', 'ph'), P.var(sh, 'real', 'ph')
            q = ['gl', ['eq', w, ['bin', '*', x, z]], ['bin', '-', ['un', 'sin', w], ['bin', '*', w, x]]]
            if rng.random() < 0.3:
                q = ['gl', ['eq', w, ['bin', '*', x, z]], ['gl', ['eq', u, ['bin', '*', w, y]], ['bin', '+', ['un', 'sin', u], w]]]
            fu = ['gl', ['eq', ['v', u[1]], q], ['bin', '*', u, w]] if q[2][0] != 'gl' else ['bin', '*', q, y]
            e = [lambda: ['un', 'tanh', q], lambda: ['bin', '*', q, y], lambda: ['bin', '/', q, ['bin', '+', ['pow', 2, y], ['lit', 1.0]]], lambda: ['bin', '+', q, w],
                 lambda: ['pow', 2, q], lambda: fu, lambda: ['if', ['bin', '<', z, ['lit', 0.5]], q, y], lambda: ['if', ['bin', '<', z, ['lit', 0.5]], x, q],
                 lambda: ['sum', q] if k else ['un', 'atan', q], lambda: ['prod', q] if k else ['bin', '*', q, z], lambda: ['norm', q] if k else ['un', 'exp', ['un', 'sin', q]],
                 lambda: [['stat', 'normal', q, y, ['lit', 2.0]], ['stat', 'cauchy', y, q, ['lit', 1.5]], ['tr', q]][k]][i]()
            out.append(P.done(e))
    for i in range(4):
        P = mk(own())
        a, b, c = P.dim(1, 4), P.dim(1, 4), P.dim(1, 3)
        A, v, B = P.var((MAT, a, b)), P.var((VEC, b, 0)), P.var((MAT, b, c))
        w, u = P.var((MAT, a, b), 'real', 'ph'), P.var((VEC, b, 0), 'real', 'ph')
        qa, qv = ['gl', ['eq', w, ['un', 'sin', A]], ['bin', '*', w, A]], ['gl', ['eq', u, ['un', 'sin', v]], ['bin', '*', u, v]]
        out.append(P.done([['dot', qa, B], ['dot', A, qv], ['dot', qa, qv], ['dot', ['tr', ['tr', qa]], ['bin', '+', qv, u]]][i]))
    # assignments inside the functor of a sum or product over a range, each reading the one before it
    for k in (SCL, VEC, MAT):
        for agg in ('sit', 'pit'):
            for v in range(4):
                P = mk(own())
                sh = shp(P, k)
                n = P.dim(1, 5)
                b, pb = P.bank(sh, n, 'nz'), P.bank(sh, n, 'real', 'ph')
                st = ['eq', ['it', pb], ['bin', '*' if v % 2 else '+', ['un', 'sin', ['itprev', pb, P.var(sh)[1]]], ['bin', '*', ['it', b], P.var(S0)]]]
                body = [st, ['gl', st, ['bin', '*', ['it', pb], ['it', b]]], ['bin', '+', st, ['it', pb]], ['un', 'cos', st]][v]
                e = [agg, f'b{pb}i', body]
                if rng.random() < 0.5:
                    e = ['gl', e, [rng.choice(['sit', 'pit']), f'b{pb}d', ['bin', '*', ['it', pb], ['lit', 1.5]]]] if v != 1 else ['bin', '*', e, P.var(S0)]
                out.append(P.done(e))
    for i in range(70 if quick else 170):
        out.append(ph_program(rng, hi=4, consts=0.15, stats=rng.random() < 0.3, iters=rng.random() < 0.5))
    return out


# ---------------------------------------------------------------- op-assignments
class OpGen(PhGen):
    def wrap(self, e, shape, cls):
        """op-assignment as an operand, on a variable that nothing to its left reads"""
        if cls != 'real' or self.noeq or self.loop is not None or not self.chance(self.peq * 0.6) or is_const(self.p.d, e) or is_raw(e):
            return super().wrap(e, shape, cls)
        t = self.p.var(shape, 'real')
        self.avail[t[1]] = (shape, 'phreal')
        return ['op', self.c('+=', '-=', '*='), t, e]

    def opassign(self, tgt=None, d=2):
        p = self.p.d
        shape = self.shape()
        if tgt is None:
            c = [i for i, v in enumerate(p['vars']) if (v['role'] == 'leaf' and v['dom'] in ('real', 'pos', 'int')) or i in self.avail]
            if c and self.chance(0.6):
                tgt = self.r.choice(c)
            elif self.chance(0.6):
                tgt = self.p.var(shape, 'real')[1]
                self.avail[tgt] = (shape, 'phreal')
            else:
                st = self.assign(d)
                return st
        v = p['vars'][tgt]
        shape = (v['shape'], v['r'], v['c'])
        op = self.c('+=', '-=', '*=', '/=')
        rsh = S0 if shape[0] == SCL or self.chance(0.3) else shape
        if v['dom'] in ('pos', 'int'):
            v['dom'] = 'real'                 # its value may now leave the class
        cls = 'nz' if op == '/=' else self.c('real', 'bnd')
        if cls == 'nz':
            e = self.expr(rsh, 'nz', d)
        elif self.chance(0.25):
            e = self.leaf(rsh, cls)
        elif self.chance(0.15):
            e = self.cleaf(rsh, cls)
        else:
            e = self.expr(rsh, cls, d)
        if e[0] == 'int':
            e = ['lit', 2.0]
        st = ['op', op, ['v', tgt], e]
        # the variable changes: only usable as an unbounded quantity from now on
        self.avail[tgt] = (shape, 'phreal')
        v['dom'] = 'real' if v['dom'] in ('real', 'pos', 'int') else v['dom']
        if self.chance(0.15):
            w = self.p.var(shape, 'phreal', 'ph')
            self.avail[w[1]] = (shape, 'phreal')
            st = ['eq', w, st]
        return st


def fix_domains(p):
    """targets of op-assignments must not be relied on to stay in a restricted domain"""
    tg = {x[2][1] for x in nodes(p['expr']) if x[0] == 'op' and x[2][0] == 'v'}
    for t in tg:
        if p['vars'][t]['dom'] not in ('real', 'phreal', 'zreal', 'nz'):
            p['vars'][t]['dom'] = 'real'
    return p


def op_program(rng, **k):
    g = OpGen(rng, **k)
    sts = []
    for _ in range(rng.randint(1, 4)):
        sts.append(g.opassign() if rng.random() < 0.75 else g.assign(2))
    if not any(x[0] == 'op' for s in sts for x in nodes(s)):
        t = g.p.var(g.shape(), 'real')
        g.avail[t[1]] = ((g.p.d['vars'][t[1]]['shape'], g.p.d['vars'][t[1]]['r'], g.p.d['vars'][t[1]]['c']), 'phreal')
        sts.append(g.opassign(t[1]))
    fin = g.rhs(g.shape(), 'real', rng.randint(1, 3)) if rng.random() < 0.85 else None
    if fin is not None:
        sts.append(fin)
    return fix_domains(g.p.done(g.glue(sts)))


def op_statement(rng, own, op, k, rk, kind):
    """an op-assignment as a statement"""
    P = mk(own(), rounds=2)
    d1, d2 = P.dim(1, 4), P.dim(1, 3)
    T = (k, d1 if k else 0, d2 if k == MAT else 0)
    R = (rk, d1 if rk else 0, d2 if rk == MAT else 0)
    u, x, z = P.var(T, 'nz'), P.var(R, 'nz'), P.var(S0, 'nz')
    if kind == 0:
        e = ['op', op, u, x]
    elif kind == 1:
        e = ['gl', ['op', op, u, ['un', 'exp', ['un', 'sin', x]]], ['bin', '*', ['un', 'sin', u], u]]
    elif kind == 2:                      # the right-hand side reads the target
        r = ['bin', '*', u, u] if rk == k else ['sum', ['bin', '*', u, u]]
        e = ['gl', ['op', op, u, r], ['bin', '*', u, z]]
    elif kind == 3:
        e = ['gl', ['gl', ['op', op, u, x], ['op', '*=' if op != '*=' else '+=', u, ['un', 'cos', x]]], ['sum', ['bin', '*', u, ['un', 'sin', u]]]]
    elif kind == 4:                      # target is a placeholder
        w = P.var(T, 'phreal', 'ph')
        e = ['gl', ['eq', w, ['bin', '*', u, z]], ['gl', ['op', op, w, x], ['bin', '+', ['bin', '*', w, w], u]]]
    elif kind == 5:                      # assigned to a placeholder
        w = P.var(T, 'phreal', 'ph')
        e = ['gl', ['eq', w, ['op', op, u, ['bin', '*', x, x]]], ['bin', '*', ['un', 'sin', w], ['bin', '-', w, u]]]
    else:
        c = P.const(R, 'nz', rng.choice(['raw', 'const', 'view']) if rk else rng.choice(['raw', 'const']))
        e = ['gl', ['op', op, u, c], ['bin', '*', u, ['bin', '+', z, u]]]
    return P.done(e)


def op_operand(rng, own, op, k, rk, kind):
    """an op-assignment as an operand: the parent needs the updated value while the backward pass restores the old one"""
    P = mk(own(), rounds=2)
    d1, d2, n = P.dim(1, 4), P.dim(1, 3), P.dim(1, 3)
    T = (k, d1 if k else 0, d2 if k == MAT else 0)
    R = (rk, d1 if rk else 0, d2 if rk == MAT else 0)
    u, x, z, y = P.var(T, 'nz'), P.var(R, 'nz'), P.var(S0, 'nz'), P.var(T, 'nz')
    m = ['op', op, u, x]
    if kind == 0:
        e = ['bin', '*', y, m]
    elif kind == 1:
        e = ['bin', '*', ['un', 'sin', y], ['bin', '*', m, ['un', 'cos', u]]]
    elif kind == 2:                      # a right-hand side that is itself an update
        t = P.var(R, 'nz')
        e = ['gl', ['op', op, u, ['op', '+=', t, x]], ['bin', '*', u, t]]
    elif kind == 3:
        e = ['bin', '/', ['un', 'exp', ['un', 'sin', y]], m] if op != '-=' and op != '+=' else ['bin', '-', ['bin', '*', y, y], ['bin', '*', y, m]]
    elif kind == 4:
        e = ['gl', ['op', '*=', y, m], ['bin', '*', y, u]]
    elif kind == 5:
        w = P.var(T, 'phreal', 'ph')
        e = ['bin', '*', y, ['bin', '*', ['eq', w, m], ['bin', '+', w, u]]]
    elif k == SCL:
        e = ['bin', '*', P.var((VEC, n, 0)), m]
    elif k == VEC and not rk:
        e = ['bin', '-', ['norm', ['bin', '*', y, m]], ['sum', ['bin', '*', u, y]]]
    else:
        e = ['bin', '*', ['dot', P.var((MAT, n, d1)), m], z]
    return P.done(e)


def opassign(rng, quick):
    own = Own()
    out = []
    for op in ('+=', '-=', '*=', '/='):
        for k in (SCL, VEC, MAT):
            for rk in ((SCL,) if k == SCL else (SCL, k)):
                for kind in range(7):
                    out.append(op_statement(rng, own, op, k, rk, kind))
    def shp(P, k):
        d1, d2 = P.dim(1, 4), P.dim(1, 3)
        return (k, d1 if k else 0, d2 if k == MAT else 0)
    out += branch_assign(own, shp, 'op', rng)
    # as operands: the parent needs the updated value while the backward pass restores the old one
    for op in ('+=', '-=', '*=', '/='):
        for k in (SCL, VEC, MAT):
            for rk in ((SCL,) if k == SCL else (SCL, k)):
                for kind in range(7):
                    out.append(op_operand(rng, own, op, k, rk, kind))
    for op in ('+=', '-=', '*=', '/='):        # operands of any magnitude
        for k in (SCL, VEC, MAT):
            P = mk(own(), rounds=2)
            d1, d2 = P.dim(1, 4), P.dim(1, 3)
            T = (k, d1 if k else 0, d2 if k == MAT else 0)
            R = T if rng.random() < 0.6 else S0
            u, x = P.var(T, 'far'), P.var(R, 'far')
            out.append(P.done(['gl', ['op', op, u, x], ['bin', '*', u, ['lit', 0.5]]]))
    # known finding: an operand that is a sequence ending in the bare updated variable
    for k in (VEC, MAT):
        P = mk(0)
        d1, d2 = P.dim(1, 4), P.dim(1, 3)
        T = (k, d1, d2 if k == MAT else 0)
        y, u, x = P.var(T, 'nz'), P.var(T, 'nz'), P.var(T, 'nz')
        out.append(P.done(['sum', ['bin', '*', y, ['gl', ['op', '+=', u, x], u]]]))
    # accumulation loops: for_each over data, scalar accumulator
    for op in ('+=', '-=', '*=', '/='):
        for k in (SCL, VEC):
            for own_t in (0, 1):
                P = mk(own(), rounds=2)
                d1, n = P.dim(1, 4), P.dim(rng.choice([0, 0, 1]), 4)
                T = (k, d1 if k else 0, 0)
                u = P.var(T, 'nz')
                b = P.bank(T, n, 'nz')
                body = ['op', op, u, ['bin', '*', ['it', b], P.var(S0, 'nz')]] if not own_t else ['op', op, ['it', b], ['bin', '*', u, ['un', 'cos', u]]]
                lp = ['fe', f'b{b}{"d" if own_t else "i"}', body]
                e = ['gl', lp, ['bin', '*', u, ['un', 'sin', u]]] if not own_t else ['gl', lp, ['sit', f'b{b}d', ['un', 'sin', ['it', b]]] if not k else ['bin', '*', u, u]]
                out.append(P.done(e))
    # op-assignments inside the functor of a sum or product over a range
    for op in ('+=', '-=', '*=', '/='):
        for k in (SCL, VEC):
            for v in range(3):
                P = mk(own(), rounds=2)
                d1, n = P.dim(1, 4), P.dim(1, 5)
                T = (k, d1 if k else 0, 0)
                u, z = P.var(T, 'nz'), P.var(S0, 'nz')
                b = P.bank(T, n, 'nz')
                agg = 'pit' if v == 1 or rng.random() < 0.3 else 'sit'
                if v < 2:
                    st = ['op', op, u, ['bin', '*', ['it', b], z]]
                else:
                    st = ['op', op, ['it', b], ['bin', '*', u, z]]
                body = [st, ['un', 'sin', st], ['bin', '*', st, z]][rng.randrange(3)]
                out.append(P.done([agg, f'b{b}{"d" if v < 2 else "i"}', body]))
    for i in range(70 if quick else 170):
        out.append(op_program(rng, hi=4, consts=0.1, stats=False, iters=rng.random() < 0.4, un=['sin', 'cos', 'exp', 'neg', 'tanh', 'atan', 'sigmoid', 'log', 'sqrt']))
    return out


# ---------------------------------------------------------------- anything
def anything(rng, n, stats=True, assigns=True):
    out = []
    for i in range(n):
        t = rng.random()
        if assigns and t < 0.22:
            out.append(ph_program(rng, hi=4, stats=stats and rng.random() < 0.4))
        elif assigns and t < 0.36:
            out.append(op_program(rng, hi=4))
        elif t < 0.62 and stats:
            g = Gen(rng, hi=4, stats=True)
            e = g.stat(2)
            u = rng.random()
            if u < 0.4:
                e = ['bin', '+', e, g.stat(2)]
            elif u < 0.7:
                e = ['bin', rng.choice('+-*'), e, g.expr(S0, 'bnd', 2)]
            out.append(g.p.done(e))
        else:
            g = Gen(rng, hi=5, stats=stats)
            out.append(g.p.done(g.root(depth=rng.randint(2, 4))))
    return out


def kinds_cover(rng):
    """one small program per node kind and shape, so that a general property meets every node"""
    own = Own()
    out = []
    for k in (SCL, VEC, MAT):
        def base():
            P = mk(own())
            d1, d2 = P.dim(1, 4), P.dim(1, 3)
            return P, (k, d1 if k else 0, d2 if k == MAT else 0)
        for f in UN_ALL:
            P, sh = base()
            x = P.var(sh, UN_ARG[f] if UN_ARG[f] in ('pos', 'ulim') else 'real')
            out.append(P.done(['un', f, ['bin', '*', x, P.const(S0, 'unit', 'raw')]]))
        for op in '+-*/':
            for b in (SCL, k):
                P, sh = base()
                x, y = P.var(sh), P.var(sh if b else S0, 'nz')
                out.append(P.done(['bin', op, ['un', 'sin', x], y] if rng.random() < .5 else ['bin', op, y, ['un', 'exp', ['un', 'sin', x]]]))
        for n in (-2, 0, 1, 3):
            P, sh = base()
            out.append(P.done(['pow', n, ['un', 'neg', P.var(sh, 'nz')]]))
        P, sh = base()
        x = P.var(sh)
        out.append(P.done(['if', ['bin', '<', P.var(S0, 'int'), P.var(S0, 'int')], ['un', 'sin', x], ['bin', '*', x, x]]))
        for o in ('sit', 'pit'):
            P, sh = base()
            b = P.bank(sh, P.dim(1, 4), 'zreal')
            out.append(P.done([o, f'b{b}d', ['bin', '*', ['it', b], P.var(S0)]]))
        if k:
            for o in ('sum', 'prod', 'norm'):
                P, sh = base()
                out.append(P.done([o, ['bin', '*', P.var(sh, 'zreal'), P.var(S0)]]))
            P, sh = base()
            out.append(P.done(['tr', ['un', 'sin', P.var(sh)]]))
            P, sh = base()
            out.append(P.done(['dot', P.var((MAT, P.dim(1, 3), sh[1])), ['un', 'sin', P.var(sh)]]))
            w = None
            P, sh = base()
            w = P.var(sh, 'real', 'ph')
            out.append(P.done(['gl', ['eq', w, ['un', 'sin', P.var(sh)]], ['bin', '*', w, w]]))
    def shp(P, k):
        d1, d2 = P.dim(1, 4), P.dim(1, 3)
        return (k, d1 if k else 0, d2 if k == MAT else 0)
    na = nested_assign(own, shp)
    out += [na[9 * k + (i + k) % 9] for k in range(3) for i in range(0, 9, 2)]
    ba = [branch_assign(own, shp, t, rng) for t in ('eq', 'mixed', 'op')]
    out += [b[4 * k + (k + j) % 4] for j, b in enumerate(ba) for k in range(3)]
    for k in (SCL, VEC, MAT):
        P = mk(own())
        sh = shp(P, k)
        w = P.var(sh, 'real', 'ph')
        out.append(P.done(['gl', ['eq', w, ['un', 'sin', P.var(sh)]], ['eq', P.var(sh, 'real', 'ph'), ['bin', '*', w, w]]]))
        for i, op in enumerate(('+=', '-=', '*=', '/=')):
            rk = k if i % 2 else SCL
            out.append(op_statement(rng, own, op, k, rk, (i + k) % 4))
            out.append(op_operand(rng, own, op, k, rk, (i + 2 * k) % 7))
        P = mk(own())
        n = P.dim(0, 4)
        b, pb = P.bank(shp(P, k), n, 'zreal'), P.bank(S0, n, 'real', 'ph')
        acc = P.var(S0, 'nz')
        it, w = ['it', b] if k == SCL else ['sum', ['it', b]], ['it', pb]
        out.append(P.done(['gl', ['fe', f'b{pb}i', ['gl', ['eq', w, ['un', 'sin', it]], ['op', '+=', acc, ['bin', '*', w, w]]]], ['bin', '*', acc, acc]]))
    for o in ('det', 'ldet'):
        for pol in ('FullPivLU', 'LDLT', 'LLT'):
            P = mk(own())
            n = P.dim(1, 5)
            out.append(P.done([o, pol, ['bin', '*', P.var((MAT, n, n), 'sq' if pol == 'FullPivLU' else 'pd'), P.var(S0, 'pos')]]))
    for name in PAT:
        for pat in PAT[name]:
            P = mk(own())
            n = P.dim(1, 4)
            sh = [S0 if ch == 'S' else (VEC, n, 0) if ch == 'V' else (MAT, n, n) for ch in pat]
            if name == 'bern':
                a = [P.var(sh[0], 'bit'), P.var(sh[1], 'unit')]
            elif name == 'wishart':
                a = [P.var(sh[0], 'pd'), P.var(sh[1], 'pd'), ['lit', 6.0]]
            elif name == 'uniform':
                a = [P.var(sh[0], 'ulim'), ['bin', '-', P.var(sh[1], 'ulim'), ['lit', 2.0]], ['bin', '+', P.var(sh[2], 'ulim'), ['lit', 2.0]]]
            else:
                a = [P.var(sh[0]), P.var(sh[1]), P.var(sh[2], 'pd' if pat[2] == 'M' else 'pos')]
            out.append(P.done(['stat', name] + a))
    return out


# ---------------------------------------------------------------- forward mode
class FwdGen:
    """random straight-line forward-mode programs; classes keep arguments inside every domain"""

    def __init__(self, rng, nv):
        self.r, self.p = rng, Prog(True)
        self.tmp = []
        self.dom = {}
        for i in range(nv):
            d = rng.choice(['real', 'real', 'real', 'pos', 'ulim', 'nz', 'int'])
            self.dom[self.p.var(S0, d)[1]] = d

    def lit(self, cls):
        return ['lit', self.r.choice({'pos': [0.5, 2.0, 1.25], 'ulim': [0.5, -0.25, 0.75], 'nz': [-2.0, 0.5, 4.0]}.get(cls, [0.5, -1.0, 2.0, 3.0, 0.0]))]

    def leaf(self, cls):
        c = [i for i, d in self.dom.items() if d in COMPAT.get(cls, [cls])]
        if cls in ('real',):
            c += self.tmp
        if cls == 'bnd':
            c = [i for i, d in self.dom.items() if d in ('real', 'int', 'pos', 'ulim')]
        if c and self.r.random() < 0.9:
            return ['v', self.r.choice(c)]
        if not c and cls in ('pos', 'ulim', 'nz') and self.r.random() < 0.6:
            return self.expr(cls, 1)
        return self.lit(cls)

    def expr(self, cls, d):
        r = self.r
        if d <= 0:
            return self.leaf(cls)
        E = self.expr
        if cls == 'pos':
            t = r.randint(0, 4)
            return [lambda: ['un', 'exp', E('bnd', d - 1)], lambda: ['bin', '+', (lambda a: ['bin', '*', a, a])(E('bnd', d - 1)), ['lit', 0.5]],
                    lambda: ['bin', '*', E('pos', d - 1), E('pos', d - 1)], lambda: ['bin', '+', E('pos', d - 1), E('pos', d - 1)],
                    lambda: ['un', 'sqrt', E('pos', d - 1)]][t]()
        if cls == 'ulim':
            t = r.randint(0, 3)
            return [lambda: ['bin', '*', ['un', r.choice(['sin', 'cos']), E('real', d - 1)], ['lit', 0.75]], lambda: ['bin', '*', ['un', 'erf', E('real', d - 1)], ['lit', 0.75]],
                    lambda: ['un', 'neg', E('ulim', d - 1)], lambda: ['bin', '*', ['un', 'atan', E('real', d - 1)], ['lit', 0.5]]][t]()
        if cls == 'nz':
            return r.choice([lambda: E('pos', d), lambda: ['un', 'neg', E('pos', d - 1)], lambda: ['bin', '+', E('ulim', d - 1), ['lit', 2.0]]])()
        if cls == 'bnd':
            t = r.randint(0, 3)
            return [lambda: ['un', r.choice(['sin', 'cos', 'atan', 'erf']), E('real', d - 1)], lambda: E('ulim', d), lambda: ['un', 'log', ['bin', '+', E('pos', d - 1), ['lit', 1.0]]],
                    lambda: self.leaf('bnd')][t]()
        f = r.choice(FWD_UN)
        t = r.random()
        if t < 0.45:
            return ['un', f, E(UN_ARG[f], d - 1)]
        op = r.choice('+-*/')
        if r.random() < 0.15:
            a = E('nz' if op == '/' else 'real', d - 1)
            return ['bin', op, a, a]
        return ['bin', op, E('real' if op != '*' else r.choice(['real', 'bnd']), d - 1), E('nz' if op == '/' else 'bnd', d - 1)]

    def program(self, nst, depth):
        sts = []
        for _ in range(nst):
            t = self.r.random()
            if t < 0.45 or not self.tmp:
                rhs = self.expr('real', depth)
                w = self.p.var(S0, 'real', 'ph')
                sts.append(['eq', w, rhs])
                self.tmp.append(w[1])
            else:
                k = self.r.choice(self.tmp + [i for i, d in self.dom.items() if d == 'real'])
                rhs = ['v', k] if self.r.random() < 0.15 else self.expr('real', depth - 1)
                sts.append(['op', '+=', ['v', k], rhs])
        sts.append(self.expr('real', depth))
        e = sts[-1]
        for s in reversed(sts[:-1]):
            e = ['gl', s, e]
        return self.p.done(e)


def forward(rng, quick):
    out = []
    for f in FWD_UN:
        cls = UN_ARG[f]
        dom = cls if cls in ('pos', 'ulim') else 'real'
        ext = {'log': 'extpos', 'sqrt': 'extpos', 'exp': 'extbnd', 'asin': 'extulim', 'acos': 'extulim', 'tan': 'ulim', 'sin': 'extreal', 'cos': 'extreal', 'neg': 'far', 'erf': 'ext', 'atan': 'ext'}[f]
        for d in (dom, ext):
            P = mk(True)
            out.append(P.done(['un', f, P.var(S0, d)], **({'dbl': 1} if d == ext else {})))
        for op in '+-*/':
            P = mk(True)
            x, y = P.var(S0, dom), P.var(S0, 'nz')
            out.append(P.done(['bin', op, ['un', f, x], ['bin', '*', y, x] if op != '/' else y]))
        for g in FWD_UN:                         # every pair of functions, one inside the other
            P = mk(True)
            x, y = P.var(S0, UN_ARG[g] if UN_ARG[g] in ('pos', 'ulim') else 'ulim' if g == 'exp' else 'real'), P.var(S0, 'real')
            inner = ['un', g, x]
            c = UN_ARG[f]
            if c == 'pos':
                inner = ['bin', '+', ['bin', '*', inner, inner], ['lit', 0.5]]
            elif c == 'ulim':
                inner = ['bin', '*', ['un', 'sin', inner], ['lit', 0.75]]
            elif c == 'bnd':
                inner = ['un', 'sin', inner]
            out.append(P.done(['bin', '+', ['un', f, inner], ['bin', '*', y, x]]))
    for op in '+-*/':
        for kind in range(6):
            P = mk(True)
            x, y = P.var(S0, 'nz'), P.var(S0, 'nz')
            e = [['bin', op, x, y], ['bin', op, x, x], ['bin', op, ['lit', 3.0], x], ['bin', op, x, ['lit', -2.0]], ['bin', op, ['bin', op, x, y], x],
                 ['bin', op, x, ['bin', '*', ['bin', op, y, x], ['lit', 0.5]]] if op != '/' else ['bin', op, x, ['bin', '/', y, x]]][kind]
            out.append(P.done(e))
        P = mk(True)
        out.append(P.done(['bin', op, P.var(S0, 'far'), P.var(S0, 'far')], dbl=1))
        P = mk(True)
        out.append(P.done(['bin', op, P.var(S0, 'far'), ['bin', '*', P.var(S0, 'far'), ['un', 'sin', P.var(S0, 'nz')]]], dbl=1))
    for kind in range(5):
        P = mk(True)
        x, y = P.var(S0), P.var(S0)
        w = P.var(S0, 'real', 'ph')
        e = [['gl', ['eq', w, ['bin', '*', x, y]], ['gl', ['op', '+=', w, ['v', w[1]]], ['un', 'sin', w]]],
             ['gl', ['eq', w, x], ['gl', ['op', '+=', w, ['bin', '*', w, y]], ['bin', '*', w, x]]],
             ['gl', ['op', '+=', x, x], ['bin', '*', x, y]],
             ['gl', ['op', '+=', x, ['op', '+=', y, ['lit', 2.0]]], ['bin', '*', x, y]],
             ['gl', ['eq', w, ['lit', 0.0]], ['gl', ['op', '+=', w, ['un', 'sin', x]], ['gl', ['op', '+=', w, ['un', 'cos', y]], ['gl', ['op', '+=', w, ['bin', '*', x, y]], w]]]]][kind]
        out.append(P.done(e))
    for i in range(150 if quick else 500):
        g = FwdGen(rng, rng.randint(1, 6))
        out.append(g.program(rng.randint(0, 5), rng.randint(2, 4)))
    return out
