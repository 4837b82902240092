"""Property checks: python3 -m shivav.run C01 [--tier quick|thorough] [--replay FILE] [--only SUBSTR]"""
import argparse
import ctypes
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from . import build, native, unit as U
from .fam import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNITS = []
ARGS = {}


def job(i):
    sys.setrecursionlimit(20000)
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    except ValueError:
        pass
    return U.run_unit((UNITS[i], ARGS['work'], ARGS['seed'], ARGS['tier'], ARGS['budget']))


def findings():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split('|')[0].split() if '=' in x)
                d['text'] = l[8:].split('|', 1)[-1].strip()
                known.append(d)
    return known


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    prop = a.prop
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='shivav_')
    try:
        return check(prop, tier, seed, work, a, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work, a, t0):
    global UNITS
    open(os.path.join(work, 'env.c'), 'w').write(native.ENV_C)
    subprocess.check_call(['gcc', '-O1', '-fPIC', '-c', os.path.join(work, 'env.c'), '-o', os.path.join(work, 'env.o')])
    e = build.sanity(work)
    if e:
        print('ERROR: the headers in %s do not compile:\n%s' % (build.REPO, e))
        return 2
    UNITS = registry.units(prop, tier)
    if a.replay:
        return replay(a.replay, work, seed)
    if a.only:
        for u in UNITS:
            u.contracts = [c for c in u.contracts if a.only in c.id or a.only in u.name or c.summary]
        UNITS = [u for u in UNITS if a.only in u.name or any(a.only in c.id for c in u.contracts)]
    ids = [c.id for u in UNITS for c in u.contracts]
    ARGS.update(work=work, seed=seed, tier=tier, budget=90 if tier == 'quick' else 900)
    n = min(int(os.environ.get('SHIVAV_JOBS', '8')), max(1, len(UNITS)))
    order = sorted(range(len(UNITS)), key=lambda i: -getattr(UNITS[i], 'cost', len(UNITS[i].contracts)))
    limit = 780 if tier == 'quick' else 12 * 3600
    res = schedule(order, n, t0 + limit)
    return report(prop, tier, seed, a, res, t0)


def worker(conn, i):
    os.setpgid(0, 0)  # its own group: a unit past the limit is ended with the processes it started
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass
    conn.send(job(i))
    conn.close()
    os._exit(0)


def schedule(order, n, end):
    """One process per unit, at most n at a time.  A process that dies without a result is run once more
    after the others; whatever has no result at `end` is reported as out of time."""
    ctx = mp.get_context('fork')
    res = [None] * len(order)
    todo, live, again = list(order), {}, set()
    while todo or live:
        while todo and len(live) < n and time.time() < end:
            i = todo.pop(0)
            r, w = ctx.Pipe(duplex=False)
            sys.stdout.flush()
            p = ctx.Process(target=worker, args=(w, i))
            p.start()
            w.close()
            live[r] = (i, p)
        if time.time() >= end:
            break
        for r in mp.connection.wait(list(live), timeout=max(0, min(5, end - time.time()))):
            i, p = live.pop(r)
            try:
                res[i] = r.recv()
            except (EOFError, OSError):
                if i not in again:
                    again.add(i)
                    todo.append(i)
            r.close()
            p.join(5)
            if p.is_alive():
                p.kill()
    for i, p in live.values():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()
    for i in order:
        if res[i] is None:
            res[i] = dict(unit=UNITS[i].name, results=[], error=None, compile_error=None, timeout=True, std='', bounds=0)
    return res


def report(prop, tier, seed, a, res, t0):
    evd = os.path.join(VERIF, 'evidence')
    rpd = os.path.join(evd, 'replay')
    os.makedirs(rpd, exist_ok=True)
    for f in os.listdir(rpd):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rpd, f))
    errs = []
    viol = []
    tot = dict(obs=0, ok=0, paths=0, native=0, smt_q=0, smt_t=0.0, ground=0)
    backends = {}
    cons = 0
    seen = {}
    for r in res:
        if r.get('error'):
            errs.append('%s: %s' % (r['unit'], r['error']))
        if r.get('timeout'):
            viol.append(dict(unit=r['unit'], id=r['unit'], kind='time limit', wit=None, failed=[dict(
                label=r['unit'] + '/obligations discharged within the time limit', backend='engine', detail='time limit')]))
        for c in r.get('compile_error') or []:
            viol.append(dict(unit=r['unit'], id=c['id'], title=c['title'], targets=c['targets'], kind='compile',
                             wit=dict(source=c['src'], compiler=c['msg'][:4000]), std=r['std'], bounds=r['bounds'],
                             failed=[dict(label=c['id'] + '/the contracted function can be instantiated', backend='clang++/g++',
                                          detail=c['msg'][:1500])]))
        for c in r['results']:
            cons += 1
            tot['obs'] += c['nobs']
            tot['ok'] += c['ok']
            tot['paths'] += c['paths']
            tot['native'] += c['native']
            tot['smt_q'] += c['smt_queries']
            tot['smt_t'] += c['smt_time']
            tot['ground'] += c['ground']
            for k, v in c['backends'].items():
                backends[k] = backends.get(k, 0) + v
            if c['failed']:
                viol.append(dict(unit=r['unit'], id=c['id'], title=c['title'], targets=c['targets'], kind='obligation',
                                 wit=c.get('witness'), failed=c['failed'], std=r['std'], bounds=r['bounds'], src=c.get('src')))
            if a.v:
                print('  %-60s paths %4d obs %5d ok %5d %s %.2fs ratio %.2g lev %d %s' % (
                    c['id'][:60], c['paths'], c['nobs'], c['ok'], c['backends'], c['time'], c['ratio'], c['level'],
                    '' if not c['failed'] else 'FAILED'))
                for f in c['failed'][:4]:
                    print('      ', f['label'], '|', f['detail'][:300])
                if c.get('witness'):
                    print('      witness', str(c['witness'])[:400])
    if a.v:
        for r in res:
            print('unit %s: %.1fs (verify %.1fs)' % (r['unit'], r.get('time', 0), r.get('vtime', 0)))
    xc = None
    if tier == 'thorough':
        xc = cross_check([q for r in res for q in r.get('smt2', [])][:200])
        if xc['disagree']:
            errs.append('cvc5 disagrees with z3 on %d obligations' % xc['disagree'])
    known = [k for k in findings() if k.get('property') == prop]
    live = []
    for v in viol:
        hit = None
        for k in known:
            if k.get('contract') == v['id'] and v['kind'] == k.get('kind', 'obligation') and (
                    not k.get('obligation') or all(k['obligation'] in f['label'] for f in v['failed'])):
                hit = k
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit['text']))
        else:
            live.append(v)
    # witnesses first
    live.sort(key=lambda v: v['wit'] is None)
    out = []
    for k, v in enumerate(live):
        p = os.path.join(rpd, '%s-%d.json' % (prop, k))
        v['property'] = prop
        v['how'] = 'replay with: ./check.sh %s --replay %s' % (prop, p)
        json.dump(v, open(p, 'w'), indent=1)
        out.append((p, v))
    ev = evidence(prop, tier, seed, res, tot, backends, cons, out, errs, xc, time.time() - t0)
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    for p, v in out[:8]:
        print('failed obligation: %s' % '; '.join(f['label'] for f in v['failed'][:3]))
        print('   %s' % v['failed'][0]['detail'][:400].replace('\n', ' '))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if v['wit'] else ' no-failing-input-found'))
    if len(out) > 8:
        print('(%d further contracts fail; see %s)' % (len(out) - 8, rpd))
    if errs:
        for e in errs[:5]:
            print('ERROR', e)
    print('%s: %d contracts, %d obligations, %d discharged (%s), %d paths, %d native runs, %.1fs' % (
        prop, cons, tot['obs'], tot['ok'], ', '.join('%s %d' % x for x in sorted(backends.items())), tot['paths'],
        tot['native'], time.time() - t0))
    if out:
        return 1
    if errs or not cons:
        return 2
    return 0


def cross_check(qs):
    from concurrent.futures import ThreadPoolExecutor
    def one(q):
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=20000', '-'], input=q.encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=40)
            return p.stdout.decode().strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            return 'timeout'
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, qs))
    return dict(checked=len(rs), agree=sum(r == 'unsat' for r in rs), disagree=sum(r == 'sat' for r in rs),
                unknown=sum(r not in ('sat', 'unsat') for r in rs))


COMMON = [
    'host code only: CUDA/HIP branches are not compiled here',
]

TRUST = [
    'clang 18 front end: the verified text is the LLVM IR it emits at -O0 from /repo headers (re-extracted on every run)',
    'the path/VC generator in shivav (sym.py, ir.py) its exact rational-polynomial engine (poly.py) and its linear integer forms (lin.py); z3 for bit-vector and nonlinear obligations',
    'the link between IR semantics and the g++ build used by the project (cross-checked by native runs of every contract)',
    'IEEE-754 arithmetic, round to nearest, no contraction; -0.0 identified with 0; inputs finite and inside the stated boxes',
    'external functions: fprintf/vfprintf only write to their stream, abort does not return',
]


def evidence(prop, tier, seed, res, tot, backends, cons, out, errs, xc, dt):
    fns = {}
    inl = set()
    names = set()
    for r in res:
        for c in r['results']:
            names.update(c['inlined'])
            if c['callee']:
                names.add(c['callee'])
    dm = build.demangle(names)

    def short(n):
        d = dm.get(n, n)
        return d if len(d) < 220 else d[:217] + '...'
    for r in res:
        for c in r['results']:
            fns.setdefault(c['targets'] or c['title'], []).append(c['id'])
            inl.update(c['inlined'])
    def tmpl(n):
        import re
        d = dm.get(n, n)
        # strip template arguments: list the source-level function
        o, depth = [], 0
        for ch in d:
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth = max(0, depth - 1)
            elif not depth:
                o.append(ch)
        s = ''.join(o)
        return s.split('(')[0].split(' ')[-1] or d[:80]
    libs = sorted({tmpl(n) for n in inl if 'shiva' in n})
    ratio = max([c['ratio'] for r in res for c in r['results']] or [0])
    summ = {}
    for r in res:
        for c in r['results']:
            for k, v in c['summarised'].items():
                summ[k] = summ.get(k, 0) + v
    fallback = [c['id'] for r in res for c in r['results'] if c['level'] > 0]
    meta = registry.META[prop]
    ok = all(r.get('results') for r in res)
    cov = dict(
        obligations=tot['obs'] + tot['ground'], discharged=tot['ok'] + tot['ground'],
        checker_cmd='./check.sh %s --tier %s' % (prop, tier),
        trusted_base=TRUST + meta.get('trust', []),
        instantiation_bound=meta.get('bound', '') + ' Within an instantiation the proof is over all run-time inputs of the '
        'contract; template parameters are enumerated, not quantified.',
        contracts=cons, paths=tot['paths'],
        named_obligations=tot['obs'], named_discharged=tot['ok'], discharged_by=backends,
        ground_side_conditions=tot['ground'],
        solver_queries=tot['smt_q'], solver_seconds=round(tot['smt_t'], 2),
        native_conformance_runs=tot['native'],
        functions_under_contract=[dict(functions=k, contracts=len(v), ids=v[:60]) for k, v in sorted(fns.items())],
        library_functions_executed_inline=libs,
        callee_contracts_used_at_call_sites=sum(summ.values()),
        contracts_that_needed_inlined_callees=fallback[:50],
        degenerate_instantiations_not_compiling=[i for r in res for i in r.get('dropped', [])],
        closest_bound_to_tolerance_ratio=ratio,
        cvc5_cross_check=xc,
        units=[dict(unit=r['unit'], std=r['std'], bounds_check=r['bounds'], contracts=len(r['results']),
                    seconds=round(r.get('time', 0), 1)) for r in res],
        failed=[dict(replay=p, contract=v['id'], obligations=[f['label'] for f in v['failed']], witness=v['wit'] is not None)
                for p, v in out],
        errors=errs)
    ev = dict(property=prop, tier=tier, seed=int(seed) if str(seed).isdigit() else 1, level='proof', coverage=cov,
              assumptions=meta.get('assume', []) + COMMON, wall_s=round(dt, 1), violations=len(out))
    return ev


def replay(path, work, seed):
    v = json.load(open(path))
    for u in UNITS:
        for c in u.contracts:
            if c.id == v['id'] and u.name == v['unit']:
                if v['kind'] == 'compile':
                    try:
                        build.compile_tu(work, 'replay', u.source([c]), u.std, u.bounds, ubsan=u.ubsan)
                    except build.BuildError as e:
                        print('does not compile:', str(e)[:2000])
                        return 1
                    print('compiles')
                    return 0
                ll, so = build.compile_tu(work, 'replay', u.source(), u.std, u.bounds, ubsan=u.ubsan)
                from .ir import Module
                for q in u.contracts:
                    q.mod = Module(open(ll).read()) if q is c else q.mod
                if v.get('wit'):
                    vals = v['wit']['input']
                    print('input', vals)
                    hist = v['wit'].get('history', [])
                    if hist:
                        print('after %d earlier calls: %s' % (len(hist), str(hist)[:2000]))
                    recs = native.run_native(c, so, hist + [vals])
                    rec = recs[-1]
                    bad = native.evaluate(c, vals, rec)
                    for o in bad:
                        print('FAILS natively:', o.label, o.detail)
                    return 1 if bad else 0
                UNITS[:] = [u]
                ARGS.update(work=work, seed=seed, tier='quick', budget=600)
                r = U.run_unit((u, work, seed, 'quick', 600))
                bad = [f for x in r['results'] if x['id'] == c.id for f in x['failed']]
                for f in bad:
                    print('FAILS:', f['label'], f['detail'])
                return 1 if bad else 0
    print('no such contract', v['id'])
    return 2


if __name__ == '__main__':
    sys.exit(main())
