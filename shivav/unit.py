"""Translation units of contracts: build, verify, cross-check natively, search for witnesses."""
import os
import random
import re
import signal
import time
import traceback
from . import build, native
from .contract import run_symbolic, Buf
from .ir import Module
from .sym import Ob, Atoms

PRE = '''#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
#include <type_traits>
'''


class TimeUp(Exception):
    """Wall-clock limit of one contract (raised by the interval timer)."""


def _alarm(sig, frame):
    raise TimeUp('time limit')


class limit:
    """Bound the time of a block: wall-clock, or processor time (so that a loaded machine changes no verdict)."""
    def __init__(s, sec, cpu=False):
        s.sec = max(0.05, sec)
        s.sig, s.timer = (signal.SIGPROF, signal.ITIMER_PROF) if cpu else (signal.SIGALRM, signal.ITIMER_REAL)

    def __enter__(s):
        s.old = signal.signal(s.sig, _alarm)
        signal.setitimer(s.timer, s.sec, 1.0)

    def __exit__(s, et, ev, tb):
        signal.setitimer(s.timer, 0)
        signal.signal(s.sig, s.old)
        return False


class Unit:
    """One wrapper source file: includes, shared declarations and the contracts' wrappers."""
    def __init__(s, name, contracts, pre='', std='17', bounds=True, note=''):
        s.name, s.contracts, s.pre, s.std, s.bounds, s.note = name, contracts, pre, std, bounds, note
        s.ubsan = False

    def source(s, cons=None):
        out = [PRE, native.ENV_H, s.pre]
        out.append('#define SX extern "C"\n')
        seen = set()
        for c in (cons if cons is not None else s.contracts):
            if (c.fn, c.cpp) in seen:       # several contracts (input domains) on one wrapper
                continue
            seen.add((c.fn, c.cpp))
            out.append(c.cpp if c.cpp.endswith('\n') else c.cpp + '\n')
        return '\n'.join(out)


def callee(mod, fn):
    """The one library function the wrapper calls (None when there is not exactly one)."""
    f = mod.funcs[fn]
    names = set()
    for blk in mod.body(f).values():
        for ins in blk:
            if ins.op == 'call':
                c = ins.a[0]
                if c[0] != 'r' and not c[1].startswith('llvm.'):
                    names.add(c[1])
    return names.pop() if len(names) == 1 else None


def okobs(res):
    return not res['error'] and all(o.ok for o in res['obs'])


def verify_one(con, mod, sums, deadline, smt2):
    """Try the modular levels in order; the first that discharges everything counts."""
    tries = []
    levels = con.uses if con.uses else [()]
    for i, tags in enumerate(levels):
        ss = {}
        for sym, c in sums.items():
            if c.tag in tags and c is not con:
                ss[sym] = c.summary
        t0 = time.process_time()
        try:
            with limit(deadline - t0, cpu=True):
                r = run_symbolic(con, mod, ss, level=set(tags), smt2=smt2, deadline=deadline)
        except TimeUp:
            r = dict(id=con.id, obs=[Ob(con.id + '/obligations discharged within the time limit', False, 'engine',
                                        'not discharged in %.0f s' % (time.process_time() - t0))], paths=0, aborts=0,
                     stats=dict(smt_queries=0, smt_time=0.0, ground=0), inlined=set(), summarised={}, level=sorted(tags), ratio=0.0,
                     unproved=[], error=None, atoms=Atoms(), time=time.process_time() - t0)
        r['lev'] = i
        tries.append(r)
        if okobs(r):
            return r, tries
        if time.process_time() > deadline:
            break
    return tries[0], tries


def run_unit(args):
    """Worker entry point. Returns a picklable dictionary."""
    unit, work, seed, tier, budget = args
    t0 = time.time()
    out = dict(unit=unit.name, std=unit.std, bounds=unit.bounds, results=[], error=None, compile_error=None)
    try:
        _run(unit, work, seed, tier, budget, out)
    except Exception:
        out['error'] = traceback.format_exc()
    out['time'] = time.time() - t0
    return out


def fork_run(args):
    return run_unit(args)


def _run(unit, work, seed, tier, budget, out):
    try:
        ll, so = build.compile_tu(work, unit.name, unit.source(), unit.std, unit.bounds, ubsan=unit.ubsan)
        cons = unit.contracts
    except build.BuildError as e:
        # isolate the contracts that do not compile
        good = []
        bad = []
        for k, c in enumerate(unit.contracts):
            try:
                build.compile_tu(work, '%s_c%d' % (unit.name, k), unit.source([c]), unit.std, unit.bounds, ubsan=unit.ubsan)
                good.append(c)
            except build.BuildError as e2:
                bad.append((c, str(e2)))
            if len([1 for c, _ in bad if not c.optional]) >= 3:
                break
        if bad and all(c.optional for c, _ in bad):
            # degenerate instantiations that a correct library need not accept
            out['dropped'] = [c.id for c, _ in bad]
            unit.contracts = good
            if not good:
                return
            return _run(unit, work, seed, tier, budget, out)
        bad = [x for x in bad if not x[0].optional]
        if not bad:
            bad = [(unit.contracts[0], str(e))]
        out['compile_error'] = [dict(id=c.id, title=c.title, targets=c.targets, msg=m, src=unit.source([c])) for c, m in bad]
        cons = []
        return
    t = time.time()
    mod = Module(open(ll).read())
    sums = {}
    for c in cons:
        if c.summary is not None:
            sym = callee(mod, getattr(c, 'symfn', None) or c.fn)
            if sym is not None:
                sums[sym] = c
    out['syms'] = {}
    smt2 = [] if tier == 'thorough' else None
    rng = random.Random('%s/%s' % (seed, unit.name))
    nbad = 0
    for con in cons:
        con.mod = mod
        # native runs first: a run that fails its contract is already a replayed counterexample
        ns = con.nsamples if con.nsamples is not None else (6 if tier == 'quick' else 40)
        wit = None
        ins = []
        try:
            ins = [x for x in (native.sample(con, rng) for _ in range(ns)) if x is not None]
            wit = first_failure(con, so, ins)
        except Exception as e:
            out['error'] = 'native run of %s: %s' % (con.id, traceback.format_exc())
        # a unit that already fails gets less time for its other contracts
        share = budget if nbad == 0 else budget / 4 if nbad < 4 else budget / 16
        deadline = time.process_time() + (share / 4 if wit else share)
        res, tries = verify_one(con, mod, sums, deadline, smt2)
        r = dict(id=con.id, title=con.title, targets=con.targets, fn=con.fn, paths=res['paths'], aborts=res['aborts'],
                 nobs=len(res['obs']), ok=0, backends={}, failed=[], ratio=res['ratio'], ground=res['stats']['ground'],
                 smt_queries=sum(x['stats']['smt_queries'] for x in tries), smt_time=sum(x['stats']['smt_time'] for x in tries),
                 time=sum(x['time'] for x in tries if 'time' in x), level=res.get('lev', 0), nlev=max(1, len(con.uses)),
                 inlined=sorted(res['inlined'] - {con.fn}), summarised=res['summarised'], error=res['error'],
                 callee=callee(mod, con.fn), deps=sorted({sums[s].id for s in res['summarised'] if s in sums}), native=0)
        for o in res['obs']:
            if o.ok:
                r['ok'] += 1
                r['backends'][o.backend] = r['backends'].get(o.backend, 0) + 1
        badobs = [o for o in res['obs'] if not o.ok]
        if res['error']:
            badobs.append(Ob(con.id + '/contract is meaningful', False, 'engine', res['error']))
        r['native'] = len(ins)
        if wit is None and badobs:
            try:
                with limit(20 if nbad < 6 else 4):
                    wit = witness(con, so, badobs, res, rng)
            except TimeUp:
                pass
            except Exception as e:
                out['error'] = 'native run of %s: %s' % (con.id, traceback.format_exc())
        for o in badobs[:12]:
            r['failed'].append(dict(label=o.label, backend=o.backend, detail=o.detail[:1500], kind=o.kind))
        if wit is not None:
            r['witness'] = dict(input=wit[0], failed=[dict(label=o.label, detail=o.detail[:800]) for o in wit[1][:6]])
            if len(wit) > 2:
                r['witness']['history'] = wit[2]
            if not badobs:
                r['failed'].append(dict(label=con.id + '/native run satisfies the postcondition', backend='native',
                                        detail='; '.join(o.label + ': ' + o.detail[:300] for o in wit[1][:4]), kind='native'))
        if r['failed']:
            nbad += 1
            r['src'] = unit.source([con])
        out['results'].append(r)
    out['smt2'] = (smt2 or [])[:12]
    out['vtime'] = time.time() - t


def first_failure(con, so, ins):
    if not ins:
        return None
    for k, (v, rec) in enumerate(zip(ins, native.run_native(con, so, ins))):
        bad = native.evaluate(con, v, rec)
        if bad:
            if k == 0:
                return v, bad
            b1 = native.evaluate(con, v, native.run_native(con, so, [v])[0])
            if b1:
                return v, b1
            # the failure needs the calls before it: the shortest tail of the history that reproduces it
            n = 1
            while n < k:
                rs = native.run_native(con, so, ins[k - n:k + 1])
                if len(rs) == n + 1 and native.evaluate(con, v, rs[-1]):
                    break
                n *= 2
            return v, bad, ins[max(0, k - n):k]
    return None


def witness(con, so, badobs, res, rng):
    ins = []
    for o in badobs:
        if o.model is not None:
            v = native.from_model(con, o.model, rng)
            if v is not None:
                ins.append(v)
    boxes = []
    rels = []
    for b, rel in res.get('badboxes', []):
        d = {}
        for aid, (lo, hi) in b.items():
            a = res['atoms'].l[aid]
            d[a.name] = (lo, hi)
            if a.defn is not None or a.recip is not None:
                rel = rel + [({((aid, 1),): 1}, lo, hi)]
        boxes.append(d)
        rels.append(rel)
    w = first_failure(con, so, ins)
    if w:
        return w
    t = time.time()
    n = 0
    chunk = 1500 if any('after earlier calls' in o.label for o in badobs) else 150
    while n < 3000 and time.time() - t < 6:
        ins = []
        for i in range(chunk):
            k = rng.randrange(len(boxes)) if boxes else 0
            if boxes and rels[k] and i < 20:
                # inputs driven to the side of the comparisons the failing path takes
                v = native.directed(con, rng, boxes[k], rels[k], res['atoms'])
            else:
                v = native.sample(con, rng, boxes[k] if boxes and i % 2 else None)
            if v is not None:
                ins.append(v)
        if not ins:
            return None
        w = first_failure(con, so, ins)
        if w is None and chunk > 150:
            # one call that returns, repeated
            for v in ins[:6]:
                if native.run_native(con, so, [v])[0]['status'] == 'return':
                    w = w or first_failure(con, so, [v] * chunk)
        if w:
            return w
        n += len(ins)
    return None
