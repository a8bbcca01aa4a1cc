"""Property id -> the parts of its check.

A part is either a family of generated programs run by harness/driver.cpp in some mode, or a
hand-written stateful driver. cases = (quick, per thorough batch) cases per program.
"""
from families import *


def part(mode, make, cases, san='address', emit=cpp, header='prog.hpp'):
    return dict(kind='programs', mode=mode, make=make, cases=cases, san=san, emit=emit, header=header)


def single(make, nq, nt, cases):
    """some of the same programs with float instead of double as value type"""
    def mk(r, q):
        k = [p for p in make(r, True) if not any(v['dom'].startswith('sxo') for v in p['vars'] + p['consts'])]
        r.shuffle(k)
        k = k[:nq if q else nt]
        for p in k:
            p['flags']['flt'] = 1
        return k
    d = part('ref', mk, cases)
    d['defs'] = ['-DHV_REAL=float']
    return d


def general(n, m):
    return lambda r, q: kinds_cover(r) + anything(r, n if q else m)


def some(n, m):
    def make(r, q):
        k = kinds_cover(r)
        r.shuffle(k)
        return k[:n // 2 if q else m // 2] + anything(r, n // 2 if q else m // 2)
    return make


def dens(name):
    return lambda r, q: density(name, r, q)


PROPS = {
    'C01': [part('fwd', forward, (1500, 6000), emit=cpp_fwd, header='fwd.hpp')],
    'C02': [part('ref', elementwise, (300, 1200)),
            single(elementwise, 24, 120, (150, 600))],
    'C03': [part('seed', general(90, 240), (250, 900))],
    'C04': [part('hist', general(110, 260), (250, 900))],
    'C05': [part('ref', placeholders, (300, 1200)),
            single(placeholders, 24, 120, (150, 600))],
    'C06': [part('ref', opassign, (300, 1200)),
            single(opassign, 24, 120, (150, 600))],
    'C07': [part('cache', general(110, 260), (500, 1500))],
    'C08': [part('ref', reductions, (400, 1500)),
            single(reductions, 24, 120, (150, 600))],
    'C09': [part('ref', linalg, (250, 900)),
            single(linalg, 24, 120, (150, 600))],
    'C10': [part('ref', branching, (400, 1500)),
            single(branching, 24, 120, (150, 600))],
    'C11': [part('ref', powers, (500, 1800)),
            single(powers, 24, 120, (150, 600))],
    'C12': [part('ref', constants, (300, 1200)),
            single(constants, 24, 120, (150, 600)),
            dict(kind='driver', mode='history', source='conststore.cpp', cases=(240000, 2000000), san='address',
                 rule='a history is 6-45 steps of making, copying, assigning, moving, storing, folding and using constants and views, and of rewriting viewed memory; '
                      'non-trivial when something was evaluated')],
    'C13': [part('ref', dens('bern'), (1200, 4000)),
            single(dens('bern'), 24, 120, (150, 600))],
    'C14': [part('ref', dens('normal'), (400, 1500)),
            single(dens('normal'), 24, 120, (150, 600))],
    'C15': [part('ref', dens('cauchy'), (600, 2000)),
            single(dens('cauchy'), 24, 120, (150, 600))],
    'C16': [part('ref', dens('uniform'), (600, 2000)),
            single(dens('uniform'), 24, 120, (150, 600))],
    'C17': [part('ref', dens('wishart'), (400, 1200)),
            single(dens('wishart'), 24, 120, (150, 600))],
    'C18': [dict(kind='driver', mode='history', source='varstore.cpp', cases=(240000, 2000000), san='address')],
    'C19': [part('life', general(110, 260), (300, 1000))],
    'C20': [part('mix', general(40, 140), (200, 1000)), part('thread', general(20, 80), (10, 60), san='thread')],
}
