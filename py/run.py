#!/usr/bin/env python3
"""Decide one property: run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Generates programs, compiles them against the headers in /repo's working tree, runs them against
the oracle, shrinks what fails, writes the replay file and evidence/<ID>.json.
"""
import argparse
import copy
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props as PR                                   # noqa: E402
import gen as G                                      # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
EIGEN = next((d for d in ('/usr/include/eigen3', '/usr/local/include/eigen3') if os.path.isdir(d)), '/usr/include/eigen3')
JOBS = os.cpu_count() or 4
CXX = os.environ.get('VERIF_CXX', 'clang++')
INC = ['-I' + os.path.join(ROOT, 'harness'), '-I' + os.path.join(REPO, 'include'), '-isystem', EIGEN]
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:handle_abort=1',
           TSAN_OPTIONS='exitcode=78:halt_on_error=1', LC_ALL='C')
QUICK_RUN = 90                                       # seconds of searching after the build
RULES = {
    'ref': 'a case is one generated program with drawn sizes, inputs, constants, prior adjoints, seed and binding, evaluated forward and backward and compared '
           'with the reference interpreter; non-trivial when some derivative of the root is non-zero, or the root is -inf / boolean by design',
    'fwd': 'a case is one generated forward-mode program at drawn inputs, run in the zero, unit, random and scaled directions in double or float and compared with the '
           'reference; non-trivial when some derivative is non-zero',
    'seed': 'a case is one program at drawn inputs run under seeds s1, s2, s1+s2, 2^k s1, 0, one-hot seeds and prior adjoints; non-trivial when the gradient is non-zero',
    'hist': 'a case is a history of forward/backward/rewrite/reset steps on one live expression; non-trivial when at least two backward passes with non-zero gradient happened',
    'cache': 'a case binds one program to garbage-filled guarded memory, then overwrites, rebinds, copies, rewrites inputs; non-trivial when it uses a cache and has a non-zero gradient',
    'life': 'a case is a history of copies, moves, destructions and evaluations through every entry point of bound expressions; non-trivial when the gradient is non-zero after at least one such step',
    'mix': 'a case interleaves the forward and backward passes of 2-3 live expressions over disjoint variables; non-trivial when some gradient is non-zero',
    'thread': 'a case runs 4 threads, each evaluating its own expression over its own variables 6 times, under ThreadSanitizer; non-trivial when some gradient is non-zero',
    'history': 'a case is a history of 6-45 operations on a pool of owning variables, views, sub-views, containers and kept expressions; non-trivial when it copies, moves, '
               'assigns, views or rebinds and also writes',
}


class Infra(Exception):
    pass


def sh(cmd, timeout=None, **k):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, errors='replace', **k)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ''
        return subprocess.CompletedProcess(cmd, -99, out if isinstance(out, str) else out.decode(errors='replace'))


def cxxflags(san, opt='-O0'):
    return ['-std=c++17', opt, '-w', '-fno-omit-frame-pointer', '-pthread'] + ([f'-fsanitize={san}'] if san else [])


class Unit:
    """the generated programs of one part, built into one binary"""

    def __init__(self, work, part, programs, tag):
        self.part, self.programs = part, programs
        self.dir = os.path.join(work, tag)
        os.makedirs(self.dir)
        self.bin = os.path.join(self.dir, 'run')
        self.meta = os.path.join(self.dir, 'progs.txt')
        self.bad = []                                 # (index, first error line)

    def text(self, idx):
        return f'#include "{self.part["header"]}"\n' + ''.join(self.part['emit'](self.programs[i], f'p{i}') + '\n' for i in idx)

    def compile(self, idx, name, extra=()):
        src = os.path.join(self.dir, name + '.cpp')
        with open(src, 'w') as f:
            f.write(self.text(idx))
        r = sh([CXX] + cxxflags(self.part['san']) + self.part.get('defs', []) + list(extra) + INC + ['-c', src, '-o', os.path.join(self.dir, name + '.o')], timeout=600)
        return r

    def build(self, pool, driver_obj, chunks=None):
        n = len(self.programs)
        chunks = chunks or max(1, min(2 * JOBS, (n + 11) // 12))
        parts = [[i for i in range(n) if i % chunks == c] for c in range(chunks)]
        parts = [p for p in parts if p]
        res = list(pool.map(lambda c: (c, self.compile(parts[c], f't{c}')), range(len(parts))))
        objs = []
        for c, r in res:
            if r.returncode == 0:
                objs.append(f't{c}.o')
                continue
            if r.returncode == -99 or r.returncode < 0:
                raise Infra('compiler did not finish: ' + r.stdout[-500:])
            # which programs of this unit are at fault
            single = list(pool.map(lambda i: (i, self.compile([i], f's{i}', ['-fsyntax-only'])), parts[c]))
            good = []
            for i, q in single:
                if q.returncode == 0:
                    good.append(i)
                else:
                    self.bad.append((i, next((x for x in q.stdout.splitlines() if 'error' in x), 'does not compile')))
            if good:
                r = self.compile(good, f't{c}')
                if r.returncode:
                    raise Infra('cannot compile: ' + r.stdout[:1500])
                objs.append(f't{c}.o')
        with open(self.meta, 'w') as f:
            badset = {i for i, _ in self.bad}
            for i, p in enumerate(self.programs):
                if i not in badset:
                    f.write(G.meta(p, f'p{i}') + '\n')
        if not objs:
            return
        r = sh([CXX] + cxxflags(self.part['san']) + [driver_obj] + [os.path.join(self.dir, o) for o in objs] + ['-o', self.bin])
        if r.returncode:
            raise Infra('cannot link: ' + r.stdout[:1500])

    def args(self):
        return ['--progs', self.meta, '--mode', self.part['mode']]


class DriverUnit:
    """a hand-written stateful driver"""

    def __init__(self, work, part, tag):
        self.part, self.bad, self.programs = part, [], None
        self.dir = os.path.join(work, tag)
        os.makedirs(self.dir)
        self.bin = os.path.join(self.dir, 'run')

    def build(self, pool, driver_obj):
        r = sh([CXX] + cxxflags(self.part['san'], '-O1') + INC + [os.path.join(ROOT, 'harness', self.part['source']), '-o', self.bin])
        if r.returncode:
            self.bad.append((-1, next((x for x in r.stdout.splitlines() if 'error' in x), 'does not compile')))

    def args(self):
        return []


def crash_line(out):
    for x in out.splitlines():
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|Assertion[^\n]*failed[^\n]*|terminate called[^\n]*|SUMMARY: [^\n]*)', x)
        if m:
            return re.sub(r'(0x[0-9a-f]+|==\d+==|pid=\d+|\(BuildId[^)]*\))', '', m.group(1)).strip()[:300]
    return None


def replay_bin(u, prog, choices=None, caseseed=None, trace=None, timeout=120):
    cmd = [u.bin] + u.args() + ['--replay', prog] + (['--choices', ','.join(map(str, choices))] if choices is not None else ['--caseseed', str(caseseed)])
    if trace:
        cmd += ['--trace', trace]
    return sh(cmd, timeout=timeout)


def failed(r):
    """a replay that reproduces: oracle failure (3), sanitizer report, abort or hang"""
    return r.returncode in (3, 77, 78, -99) or r.returncode < 0


def explain(r):
    if r.returncode == 3:
        ls = [x for x in r.stdout.splitlines()]
        i = next((k for k, x in enumerate(ls) if x.startswith('FAIL ')), None)
        return (ls[i][5:], ls[i + 1] if i + 1 < len(ls) else '') if i is not None else ('failure', '')
    if r.returncode == -99:
        return 'does not terminate', ''
    return crash_line(r.stdout) or f'crash (status {r.returncode})', ''


def run_slices(u, pool, seed, cases, seconds, known=()):
    """returns (stats list, failures)"""
    extra = ['--known', ','.join(known)] if known else []
    def one(i):
        st = os.path.join(u.dir, f'state{i}')
        r = sh([u.bin] + u.args() + ['--seed', str(seed), '--cases', str(cases), '--slice', str(i), '--slices', str(JOBS), '--seconds', str(seconds), '--state', st] + extra,
               timeout=seconds + 150)
        return i, st, r
    nsl = JOBS if u.part['mode'] != 'thread' else max(2, JOBS // 4)
    if u.part['mode'] == 'thread':
        def one(i):                                   # noqa: F811
            st = os.path.join(u.dir, f'state{i}')
            r = sh([u.bin] + u.args() + ['--seed', str(seed), '--cases', str(cases), '--slice', str(i), '--slices', str(nsl), '--seconds', str(seconds), '--state', st] + extra,
                   timeout=seconds + 150)
            return i, st, r
    stats, fails = [], []
    for i, st, r in pool.map(one, range(nsl)):
        for line in r.stdout.splitlines():
            if line.startswith('STATS\t'):
                try:
                    stats.append(json.loads(line[6:]))
                except ValueError:
                    pass
            if line.startswith('FAIL\t'):
                f = line.split('\t')
                fails.append(dict(prog=f[1], choices=[int(x) for x in f[2].split(',') if x], again=f[3] == '1', msg=f[4], desc=f[5] if len(f) > 5 else ''))
        if r.returncode == 0 or r.returncode == 3:
            continue
        if 'FATAL: ThreadSanitizer' in r.stdout or 'FATAL: AddressSanitizer' in r.stdout:
            raise Infra(r.stdout[:400])
        # the process died: find the case, confirm it dies again
        try:
            prog, cs = open(st).read().split()
        except (OSError, ValueError):
            raise Infra(f'run ended with {r.returncode}: {r.stdout[-800:]}')
        tr = os.path.join(u.dir, 'trace')
        reps = []
        for _ in range(3):
            if os.path.exists(tr):
                os.unlink(tr)
            reps.append(replay_bin(u, prog, caseseed=cs, trace=tr))
        n_fail = sum(failed(q) for q in reps)
        if n_fail < (1 if u.part['mode'] == 'thread' else 3):
            if r.returncode == -99:
                continue                              # slow, not stuck: out of time counts as explored less
            line = crash_line(r.stdout)
            if line is None or n_fail == 0 and u.part['mode'] != 'thread':
                print(f'note: run ended with {r.returncode} and did not end so again: {(line or r.stdout[-300:])}', file=sys.stderr)
                if line is None:
                    raise Infra(f'run ended with {r.returncode}, not reproducible: {r.stdout[-600:]}')
            fails.append(dict(prog=prog, choices=None, caseseed=cs, again=False, msg=line, desc=''))
            continue
        try:
            choices = [int(x) for x in open(tr).read().split(',') if x]
        except OSError:
            choices = None
        msg = next(explain(q)[0] for q in reps if failed(q))
        fails.append(dict(prog=prog, choices=choices, caseseed=cs, again=True, msg=msg, desc='', crash=True))
    return stats, fails


def shrink_choices(u, f, budget_s=60):
    """for crashes: shrink by re-running the binary"""
    t0 = time.time()
    best = list(f['choices'])

    def bad(c):
        return time.time() - t0 < budget_s and failed(replay_bin(u, f['prog'], choices=c, timeout=60))
    if not bad(best):
        f['choices'] = None if 'caseseed' in f else best
        return
    while best and best[-1] == 0:
        best.pop()
    for ln in (64, 16, 4, 1):
        i = len(best)
        while i > 0 and time.time() - t0 < budget_s:
            c = best[:max(0, i - ln)] + best[i:]
            if len(c) < len(best) and bad(c):
                best = c
            i -= ln
    for i in range(len(best)):
        if best[i] and time.time() - t0 < budget_s:
            for v in (0, best[i] // 2):
                c = best[:i] + [v] + best[i + 1:]
                if v != best[i] and bad(c):
                    best = c
                    break
    f['choices'] = best


# ---------------------------------------------------------------- shrinking the program itself
def subtrees(e, path=()):
    yield path, e
    for i, x in enumerate(e):
        if isinstance(x, list):
            yield from subtrees(x, path + (i,))


def replace(e, path, new):
    if not path:
        return new
    e = list(e)
    e[path[0]] = replace(e[path[0]], path[1:], new)
    return e


def standalone(e):
    return not any(x[0] in ('it', 'itprev', 'itv') for x in G.nodes(e)) or e[0] in ('sit', 'pit', 'fe')


def reductions(p):
    root = p['expr']
    size = sum(1 for _ in G.nodes(root))
    out = []

    def put(e):
        try:
            if any(x[0] in ('sit', 'pit', 'fe') and x[2][0] == 'it' for x in G.nodes(e)):
                return                                # a functor that returns an owning variable by value makes a new one
            if G.is_const(p, e) or G.is_raw(e) or e[0] in ('v', 'el', 'hd', 'tl', 'it', 'itprev', 'c'):
                return
            G.shape_of(p, e)
        except Exception:
            return
        n = sum(1 for _ in G.nodes(e))
        if n < size:
            q = copy.deepcopy(p)
            q['expr'] = e
            out.append((n, q))
    for path, e in subtrees(root):
        if path and standalone(e):
            put(e)
        if not path:
            continue
        try:
            s = G.shape_of(p, e)
        except Exception:
            continue
        for pth, d in subtrees(e):
            if not pth or d[0] in ('eq', 'op', 'gl', 'fe') or G.is_raw(d) or (G.is_const(p, d) != G.is_const(p, e)):
                continue
            try:
                if G.shape_of(p, d) == s and (standalone(d) or not any(x[0] in ('sit', 'pit', 'fe') for x in G.nodes(e))):
                    put(replace(root, path, d))
            except Exception:
                continue
    out.sort(key=lambda t: t[0])
    seen, res = set(), []
    for n, q in out:
        k = json.dumps(q['expr'])
        if k not in seen:
            seen.add(k)
            res.append(q)
    return res


def shrink_program(work, pool, drv, part, prog, msg, crash, deadline, compile_error):
    """greedy: try smaller programs, keep the smallest one that still fails in the same way"""
    best = None
    cur = prog
    for rnd in range(4):
        if time.time() > deadline:
            break
        cands = reductions(cur)[:48]
        if not cands:
            break
        u = Unit(work, part, cands, f'shrink{rnd}')
        try:
            u.build(pool, drv, chunks=JOBS)
        except Infra:
            break
        hit = None
        if compile_error:
            if u.bad:
                i = min(i for i, _ in u.bad)
                hit = dict(program=cands[i], choices=None, msg=dict(u.bad)[i], desc='')
        elif os.path.exists(u.bin):
            bad = {i for i, _ in u.bad}
            def one(i):
                if i in bad or time.time() > deadline:
                    return None
                m = os.path.join(u.dir, f'm{i}')
                with open(m, 'w') as f:
                    f.write(G.meta(cands[i], f'p{i}') + '\n')
                r = sh([u.bin, '--progs', m, '--mode', part['mode'], '--seed', '7', '--cases', '400', '--seconds', '10'], timeout=40)
                for line in r.stdout.splitlines():
                    if line.startswith('FAIL\t'):
                        f = line.split('\t')
                        if f[3] == '1' and not crash and f[4].split(':')[0] == msg.split(':')[0]:
                            return dict(program=cands[i], id=f'p{i}', choices=[int(x) for x in f[2].split(',') if x], msg=f[4], desc=f[5])
                return None
            for h in pool.map(one, range(len(cands))):
                if h:
                    hit = h
                    break
        shutil.rmtree(u.dir, ignore_errors=True)
        if not hit:
            break
        best, cur = hit, hit['program']
    return best


# ---------------------------------------------------------------- known findings
def known(pid):
    out = []
    try:
        for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def fingerprint(pid, prog, part):
    s = json.dumps(prog['expr'] if prog else part.get('source', ''), sort_keys=True)
    return hashlib.sha256(f'{pid}/{part["mode"]}/{s}'.encode()).hexdigest()[:16]


def write_replay(pid, rec):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{rec["key"]}.json')
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def mk_units(work, pid, parts, seed, batch, quick, only=None):
    units = []
    for k, part in enumerate(parts):
        if only is not None and k != only:
            continue
        if part['kind'] == 'driver':
            units.append((k, DriverUnit(work, part, f'b{batch}_{k}')))
        else:
            progs = part['make'](PR.rng_for(pid, k, seed, batch), quick)
            units.append((k, Unit(work, part, progs, f'b{batch}_{k}')))
    return units


def build_driver(work, san, cache={}):
    if san not in cache:
        o = os.path.join(work, f'driver_{san}.o')
        # the reference interpreter is instrumented only where threads are involved
        r = sh([CXX] + cxxflags(san if san == 'thread' else None, '-O2') + ['-I' + os.path.join(ROOT, 'harness'), '-c', os.path.join(ROOT, 'harness', 'driver.cpp'), '-o', o])
        if r.returncode:
            raise Infra('driver does not compile: ' + r.stdout[:1500])
        cache[san] = o
    return cache[san]


def do_replay(pid, path):
    rec = json.load(open(path))
    work = tempfile.mkdtemp(prefix='fastad_replay_')
    try:
        part = PR.PROPS[pid][rec['part']]
        with ThreadPoolExecutor(JOBS) as pool:
            if part['kind'] == 'driver':
                u = DriverUnit(work, part, 'r')
                u.build(pool, None)
                name = 'history'
            else:
                u = Unit(work, part, rec['programs'], 'r')
                u.build(pool, build_driver(work, part['san']))
                name = f'p{rec["index"]}'
            if u.bad:
                print('does not compile:', u.bad[0][1])
                return 1
            if rec.get('compile_error'):
                print('compiles')
                return 0
            r = replay_bin(u, name, choices=rec.get('choices'), caseseed=rec.get('caseseed'))
            print(r.stdout[-4000:])
            return 1 if failed(r) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--minutes', type=float, default=11.0, help='thorough: time for all batches')
    ap.add_argument('--replay')
    a = ap.parse_args()
    pid = a.property
    if a.replay:
        sys.exit(do_replay(pid, a.replay))
    t0 = time.time()
    quick = a.tier == 'quick'
    parts = PR.PROPS[pid]
    work = tempfile.mkdtemp(prefix=f'fastad_{pid}_')
    rc, nviol = 0, 0
    tot = dict(cases=0, evals=0, discards=0, nontrivial=0, distinct=0)
    reported = set()
    tags, disc, samples, nprog, batches = {}, {}, [], 0, 0
    try:
        with ThreadPoolExecutor(JOBS) as pool:
            batch = 0
            while True:
                b0 = time.time()
                units = mk_units(work, pid, parts, a.seed, batch, quick)
                drvs = {}
                for _, u in units:
                    if u.programs is not None and u.part['san'] not in drvs:
                        drvs[u.part['san']] = pool.submit(build_driver, work, u.part['san'])
                found = None
                for k, u in units:
                    drv = drvs[u.part['san']].result() if u.programs is not None else None
                    u.build(pool, drv)
                    if u.programs is not None:
                        nprog += len(u.programs)
                        if len(u.bad) == len(u.programs):
                            raise Infra('no generated program compiles: ' + u.bad[0][1])
                    if u.bad:
                        i, err = u.bad[0]
                        if i < 0:
                            raise Infra('driver does not compile: ' + err)
                        found = (k, u, dict(prog=f'p{i}', choices=None, again=True, msg='a documented construction does not compile: ' + err, desc='', compile_error=True))
                        break
                    secs = QUICK_RUN if quick else max(20.0, a.minutes * 60 - (time.time() - t0))
                    kn = dict(known(pid))
                    skip = [f'p{j}' for j, p in enumerate(u.programs or ()) if fingerprint(pid, p, u.part) in kn]
                    stats, fails = run_slices(u, pool, a.seed * 1000003 + batch, u.part['cases'][0 if quick else 1], secs, skip)
                    for s in stats:
                        for x in tot:
                            tot[x] += s[x]
                        for x, y in s['tags'].items():
                            tags[x] = tags.get(x, 0) + y
                        for x, y in s['discard_reasons'].items():
                            disc[x] = disc.get(x, 0) + y
                        if len(samples) < 6:
                            for smp in s['samples'][:1]:
                                m = re.match(r'p(\d+) (.*)', smp)
                                samples.append({'program': G.sx(u.programs[int(m.group(1))]['expr']), 'inputs': m.group(2)} if m and u.programs is not None else smp)
                    # same outcome on every re-run, or a sanitizer report
                    fails = [f for f in fails if f['again'] or f.get('caseseed') or u.part['mode'] == 'thread']
                    for f in fails:
                        p = u.programs[int(f['prog'][1:])] if u.programs is not None else None
                        key = fingerprint(pid, p, u.part)
                        if key in kn:
                            if key not in reported:
                                print(f'KNOWN-FINDING: property={pid} {kn[key]}')
                                reported.add(key)
                            continue
                        found = (k, u, f)
                        break
                    if found:
                        break
                batches += 1
                if found:
                    k, u, f = found
                    if f.get('crash') and f.get('choices'):
                        shrink_choices(u, f)
                    idx = int(f['prog'][1:]) if u.programs is not None else None
                    p = u.programs[idx] if u.programs is not None else None
                    rec = dict(property=pid, part=k, mode=u.part['mode'], seed=a.seed, tier=a.tier, message=f['msg'], inputs=f.get('desc', ''), choices=f.get('choices'),
                               caseseed=f.get('caseseed'), compile_error=bool(f.get('compile_error')), key=fingerprint(pid, p, u.part))
                    if p is not None:
                        multi = u.part['mode'] in ('mix', 'thread')
                        rec['programs'] = u.programs if multi else [p]
                        rec['index'] = idx if multi else 0
                        rec['cpp'] = u.part['emit'](p, 'prog')
                        rec['expression'] = G.sx(p['expr'])
                        if not multi and not f.get('crash') and u.part['mode'] != 'fwd' and time.time() - t0 < 500:
                            try:
                                small = shrink_program(work, pool, drvs[u.part['san']].result(), u.part, p, f['msg'], False, time.time() + 100, rec['compile_error'])
                            except Exception as e:            # shrinking is a convenience
                                print('note: shrinking stopped:', e, file=sys.stderr)
                                small = None
                            if small:
                                rec['original'] = dict(programs=rec['programs'], choices=rec['choices'], message=rec['message'], inputs=rec['inputs'])
                                rec.update(programs=[small['program']], choices=small['choices'], message=small['msg'], inputs=small['desc'],
                                           cpp=u.part['emit'](small['program'], 'prog'), expression=G.sx(small['program']['expr']))
                    path = write_replay(pid, rec)
                    print(f'{rec.get("expression", "")}\n{rec["message"]}\n{rec["inputs"]}')
                    print(f'VIOLATION property={pid} replay={path}')
                    rc, nviol = 1, 1
                    break
                for _, u in units:
                    shutil.rmtree(u.dir, ignore_errors=True)
                batch += 1
                if quick or time.time() - t0 + 1.15 * (time.time() - b0) > a.minutes * 60:
                    break
    except Infra as e:
        print(f'ERROR: {e}', file=sys.stderr)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if rc != 2:
        cov = dict(evaluations=tot['cases'], distinct_nontrivial=tot['distinct'], rule='; '.join(dict.fromkeys(p.get('rule', RULES[p['mode']]) for p in parts)), samples=samples or ['none: stopped before sampling'],
                   programs=nprog, batches=batches, forward_backward_checks=tot['evals'], discarded=tot['discards'], discard_reasons=disc, tags=tags)
        ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov, wall_s=round(time.time() - t0, 2), violations=nviol,
                  assumptions=['x86-64 Linux, clang 18, Eigen 3.4 from the system', 'the reference interpreter in harness/ref.hpp (long double forward jets) is right',
                               'tolerances come from re-running the reference with rounding noise of 2^-50'])
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f'{pid} {a.tier} seed={a.seed}: {nprog} programs, {tot["cases"]} cases, {tot["evals"]} checks, {tot["distinct"]} distinct non-trivial, '
              f'{tot["discards"]} discarded, {time.time() - t0:.1f}s, {"VIOLATION" if nviol else "held"}')
    sys.exit(rc)


if __name__ == '__main__':
    main()
