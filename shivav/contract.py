"""Contracts, their verification against the IR, and their concrete evaluation."""
import math
import time
import traceback
from fractions import Fraction
import z3
from . import poly as P
from .ir import IRError
from .sym import (FZ, zq, Exec, Atoms, FP, S, Ptr, Fn, Ob, UNDEF, Unproved, UBFound, PathEnd, Infeasible, tos, fconst, U, ETA, up,
                  sgn, Special, Opaque, Bits, bv, NULL, fp_to_int)

ESZ = {'d': 8, 'f': 4}
CT = {'d': 'double', 'f': 'float'}


class Arg:
    out = False


class Int(Arg):
    """Integer passed by value; symbolic over its whole type unless lo/hi are given."""
    def __init__(s, name, w=32, signed=True, lo=None, hi=None, enum=False):
        s.name, s.w, s.signed, s.lo, s.hi, s.enum = name, w, signed, lo, hi, enum

    def base(s):
        v = z3.BitVec(s.name, s.w)
        r = []
        if s.lo is not None:
            r.append(v >= s.lo if s.signed else z3.UGE(v, s.lo))
        if s.hi is not None:
            r.append(v <= s.hi if s.signed else z3.ULE(v, s.hi))
        return r


class FVal(Arg):
    def __init__(s, name, ty, lo, hi):
        s.name, s.ty, s.lo, s.hi = name, ty, lo, hi


class Buf(Arg):
    """Memory object passed by pointer. kind: 'd','f' (floating) or integer width; mode: 'in','out','inout'.
    Elements of an 'out' buffer hold arbitrary bits (Opaque), so no result may depend on them."""
    def __init__(s, name, kind, n, mode='in', lo=-1.0, hi=1.0, boxes=None):
        s.name, s.kind, s.n, s.mode, s.lo, s.hi = name, kind, n, mode, lo, hi
        s.out = mode != 'in'
        s.es = ESZ.get(kind) or kind // 8
        s.boxes = boxes

    def box(s, i):
        if s.mode == 'out':
            return (-1000.0, 1000.0)
        return s.boxes[i] if s.boxes else (s.lo, s.hi)


def In(name, kind, n, lo=-1.0, hi=1.0, boxes=None):
    return Buf(name, kind, n, 'in', lo, hi, boxes)


def Out(name, kind, n):
    return Buf(name, kind, n, 'out')


def InOut(name, kind, n, lo=-1.0, hi=1.0, boxes=None):
    return Buf(name, kind, n, 'inout', lo, hi, boxes)


class Contract:
    def __init__(s, id, cpp, fn, args, ensures, ret='void', requires=None, facts=None, tu='main', prop=None, uses=(),
                 under=None, may_abort=False, sampler=None, handles=None, summary=None, targets='', nsamples=None,
                 title='', maxpaths=4000, tag=None, nra=False):
        s.id, s.cpp, s.fn, s.args, s.ensures, s.ret = id, cpp, fn, args, ensures, ret
        s.requires, s.facts, s.tu, s.uses = requires, facts, tu, uses
        s.may_abort, s.sampler, s.handles, s.summary = may_abort, sampler, handles, summary
        s.targets, s.nsamples, s.title, s.maxpaths = targets, nsamples, title, maxpaths
        s.tag = tag
        s.nra = nra
        s.raw = False       # floating arguments are arbitrary bit patterns, which the code may only move
        s.optional = False      # a degenerate instantiation: not compiling is no violation
        s.mod = None
        s.only = None       # keep only the obligations whose label matches


class Ctx:
    """What 'ensures' sees: symbolic (one path) or concrete (one native run)."""

    def __init__(s, atoms, con):
        s.atoms = atoms
        s.con = con
        s.a = {}
        s.o = {}
        s.ret = None
        s.status = 'return'
        s.trace = []
        s.events = []
        s.obs = []
        s.concrete = False
        s.ex = None
        s.level = frozenset()
        s.bufs = {}
        s.maxratio = 0.0
        s.uses = con.uses
        s.native_ptr = {}

    # -- obligations
    def skip(s, label):
        return s.con.only is not None and not s.con.only.search(label)

    def prove(s, label, cond):
        if s.skip(label):
            return True
        if s.concrete:
            if isinstance(cond, z3.ExprRef):
                cond = z3.is_true(z3.simplify(cond))
            s.obs.append(Ob(label, bool(cond), 'native'))
            return bool(cond)
        if isinstance(cond, z3.ExprRef):
            c = z3.simplify(cond, elim_sign_ext=False)
            if z3.is_true(c):
                s.obs.append(Ob(label, True, 'ground evaluation'))
                return True
            if z3.is_false(c):
                cond = False
        return s.ex.prove(label, cond)

    def fail(s, label, detail=''):
        if s.skip(label):
            return True
        s.obs.append(Ob(label, False, 'rational', detail, s.model()))
        return False

    def model(s):
        if s.concrete or s.ex is None:
            return None
        if s.ex.solver.check() == z3.sat:
            return s.ex.solver.model()
        return None

    def box(s, a):
        return s.ex.box(a)

    def sup(s, p):
        if not p:
            return 0.0
        if P.is_const(p):
            return P.fup(P.cval(p))
        return P.sup(p, s.box)

    def close(s, label, v, spec, tol):
        """|machine value - spec| <= tol for every input in the box."""
        if s.skip(label):
            return True
        spec = tos(spec)
        if v is UNDEF:
            return s.fail(label, 'value is not written')
        if isinstance(v, Special):
            return s.fail(label, 'value is ' + v.v)
        if isinstance(v, Bits):
            v = v.v
        if not isinstance(v, FP):
            return s.fail(label, 'not a floating-point value: %r' % (v,))
        d = P.sub(v.p, spec.p)
        lim = tol + spec.E
        b = s.sup(d) + v.E
        if not b <= lim:
            d2, e2 = s.expand(d)
            if d2 is not d:
                b = s.sup(d2) + v.E + e2
        if not b <= lim and d:
            b2 = s.clear_recips(d)
            if b2 is not None:
                b = b2 + v.E
        ok = b <= lim
        if ok and lim > 0:
            s.maxratio = max(s.maxratio, b / lim)
        s.obs.append(Ob(label, ok, 'native' if s.concrete else 'rational', '' if ok else
                        'bound %.3g > tolerance %.3g; difference from the specification: %s; accumulated rounding %.3g' % (
                            b, lim, P.fmt(d, s.atoms.name), v.E), None if ok else s.model()))
        return ok

    def expand(s, d):
        """Substitute the defining polynomials of callee-result atoms (their contracts)."""
        err = 0.0
        done = d
        for _ in range(6):
            ids = [i for i in P.atoms_of(done) if s.atoms.l[i].defn is not None]
            if not ids:
                break
            if len(done) > 3000:
                break
            i = max(ids)
            dp, de = s.atoms.l[i].defn
            groups = {}
            for m, c in done.items():
                e = dict(m).get(i, 0)
                m2 = tuple(x for x in m if x[0] != i)
                groups.setdefault(e, {})[m2] = c
            r = groups.get(0, {})
            lo, hi = s.box(i)
            B = max(abs(lo), abs(hi)) + de
            for e, g in groups.items():
                if e == 0:
                    continue
                r = P.add(r, P.mul(g, P.power(dp, e)))
                err += s.sup(g) * e * B ** (e - 1) * de
            done = r
        return done, err * (1 + 1e-9)

    def clear_recips(s, d):
        """Bound |d| by clearing reciprocal atoms r (r*q = 1): exact when the numerator vanishes."""
        scale = 1.0
        for _ in range(4):
            ids = [i for i in P.atoms_of(d) if s.atoms.l[i].recip is not None]
            if not ids:
                break
            i = max(ids)
            q = s.atoms.l[i].recip
            k = max(dict(m).get(i, 0) for m in d)
            pw = [P.ONE]
            for _j in range(k):
                pw.append(P.mul(pw[-1], q))
            r = {}
            for m, c in d.items():
                e = dict(m).get(i, 0)
                r = P.add(r, P.mul({tuple(x for x in m if x[0] != i): c}, pw[k - e]))
            d = r
            lo, hi = s.box(i)
            scale *= max(abs(lo), abs(hi)) ** k
            if not d:
                return 0.0
        else:
            return None
        if scale == 1.0:
            return None
        return s.sup(d) * scale

    def same(s, label, v, w):
        """Bit-identical (up to the sign of zero) for every input."""
        if s.skip(label):
            return True
        if s.concrete and s.con.raw:    # bit patterns
            v, w = [fp_to_int(x) if isinstance(x, FP) else x for x in (v, w)]
        if isinstance(v, FP) and isinstance(w, FP):
            ok = v is w or (v.E == 0 and w.E == 0 and v.p == w.p and not (s.con.raw and v.nz != w.nz))
            det = '' if ok else 'got %s (rounding %.3g), expected %s' % (P.fmt(v.p, s.atoms.name), v.E,
                                                                          P.fmt(w.p, s.atoms.name))
            if not ok and not s.concrete and not s.con.raw and v.E == 0 and w.E == 0:
                # may still be equal on a refined box
                d = P.sub(v.p, w.p)
                lo, hi = P.interval(d, s.box)
                ok = lo == hi == 0
            s.obs.append(Ob(label, ok, 'native' if s.concrete else 'rational', det, None if ok else s.model()))
            return ok
        if v is UNDEF or w is UNDEF or isinstance(v, (Special, Ptr)) or isinstance(w, (Special, Ptr)):
            ok = v is w or (isinstance(v, Ptr) and isinstance(w, Ptr) and v.o is w.o and type(v.off) is int and v.off == w.off)
            if ok:
                s.obs.append(Ob(label, True, 'ground evaluation'))
                return True
            return s.fail(label, 'got %r, expected %r' % (v, w))
        if type(v) is int and type(w) is int:
            return s.prove(label, v == w)
        if isinstance(v, (FP, Bits)) or isinstance(w, (FP, Bits)):
            return s.fail(label, 'got %r, expected %r' % (v, w))
        n = v.size() if isinstance(v, z3.BitVecRef) else w.size()
        return s.prove(label, bv(v, n) == bv(w, n))

    # -- pointers
    def ptr_is(s, label, p, buf, off):
        """Pointer p designates byte offset 'off' (python int or BV64) of argument buffer buf."""
        if s.concrete:
            base = s.native_ptr[buf]
            o = off
            if isinstance(o, z3.ExprRef):
                o = sgn(z3.simplify(o).as_long(), 64)
            return s.prove(label, p == base + o)
        if not isinstance(p, Ptr) or p.o is not s.bufs[buf]:
            return s.fail(label, 'pointer %r does not designate %s' % (p, buf))
        return s.prove(label, bv(p.off & (2 ** 64 - 1), 64) == (bv(off & (2 ** 64 - 1), 64) if type(off) is int else off)
                       if type(p.off) is int else p.off == (bv(off & (2 ** 64 - 1), 64) if type(off) is int else off))

    def ptr_any(s, p):
        return p

    def untouched(s, label, buf):
        if not s.concrete:
            o = s.bufs[buf]
            s.prove(label, o.reads == 0 and o.writes == 0)

    # -- integers: everything as signed 64-bit (or wider) terms
    def i64(s, name, signed=None):
        arg = next(x for x in s.con.args if x.name == name)
        v = s.a[name]
        sg = arg.signed if signed is None else signed
        if type(v) is int:
            return z3.BitVecVal(v, 64)
        w = v.size()
        if w == 64:
            return v
        return z3.SignExt(64 - w, v) if sg else z3.ZeroExt(64 - w, v)

    # -- spec building blocks
    def recip(s, spec, lower):
        spec = tos(spec)
        if P.is_const(spec.p):
            c = 1 / P.cval(spec.p)
            return S(P.const(c), up(spec.E / lower / lower * 1.01) if spec.E else 0.0, P.fup(c))
        r = s.ex.recip_poly(spec.p, lower)
        return S(r, up(spec.E / lower / lower * 1.01) if spec.E else 0.0, up(1.0 / lower))

    def identity(s, label, p, q=None):
        """Exact polynomial identity over the reals (all reals, no box)."""
        if s.skip(label):
            return True
        d = P.sub(p, q) if q is not None else p
        ok = not d
        s.obs.append(Ob(label, ok, 'native' if s.concrete else 'rational', '' if ok else P.fmt(d, s.atoms.name)))
        return ok


def spec_const(c):
    return S(P.const(c))


def sum_s(xs):
    r = S({}, 0.0, 0.0)
    for x in xs:
        r = r + x
    return r


def prod_s(xs):
    r = None
    for x in xs:
        r = x if r is None else r * x
    return r


# ------------------------------------------------------------------------
def run_symbolic(con, mod, summaries, level=frozenset(), box_scale=None, timeout=20000, smt2=None, deadline=None, ghist=None, rnd=0):
    """Verify one contract: explore every path, return result dictionary."""
    t0 = time.time()
    stats = dict(smt_queries=0, smt_time=0.0, ground=0, smt2=smt2)
    res = dict(id=con.id, obs=[], paths=0, aborts=0, stats=stats, inlined=set(), summarised={}, level=sorted(level), ratio=0.0,
               unproved=[], error=None)
    if con.fn not in mod.funcs:
        res['error'] = 'wrapper %s missing from the IR' % con.fn
        return res
    base = []
    for a in con.args:
        if isinstance(a, Int):
            base += a.base()
    if con.requires:
        base += [b for b in con.requires({a.name: z3.BitVec(a.name, a.w) for a in con.args if isinstance(a, Int)})]
    if base:
        sv = z3.Solver()
        sv.add(*base)
        if sv.check() != z3.sat:
            res['error'] = 'precondition unsatisfiable (vacuous contract)'
            return res
    atoms = Atoms()
    work = [[]]
    feasible = 0
    dirty = {}
    while work:
        prefix = work.pop()
        if res['paths'] >= con.maxpaths or (deadline and time.process_time() > deadline):
            res['unproved'].append(Ob('path enumeration complete', False, 'engine', 'path or time limit reached'))
            break
        ex = Exec(mod, atoms, summaries, prefix, base, stats, timeout)
        ex.nra = con.nra
        ex.ghist = ghist or {}
        ctx = Ctx(atoms, con)
        ctx.ex = ex
        ctx.level = level
        try:
            args, init = make_args(con, ex, ctx)
            if con.facts:
                for q, d in con.facts(ctx):
                    ex.facts.append((q, d))
            if con.handles:
                ex.handles = {k: (lambda e, ar, h=h: h(ctx, ar)) for k, h in con.handles.items()}
            try:
                ret = ex.call(con.fn, args)
                ctx.ret = ret
                ctx.status = 'return'
            except PathEnd as e:
                ctx.status = e.status
            if ctx.status != 'ub':
                ctx.trace = ex.trace
                ctx.events = ex.events
                finish(con, ex, ctx, init)
            feasible += 1
            if ctx.status == 'abort':
                res['aborts'] += 1
        except Infeasible:
            pass
        except UBFound as e:
            feasible += 1
            m = ctx.model()
            if ex.pc and m is None:
                pass
            ctx.obs.append(Ob('no undefined behaviour: ' + str(e), False, 'engine', str(e), m, kind='ub'))
        except (Unproved, RecursionError) as e:
            feasible += 1
            ctx.obs.append(Ob('obligation within reach: ' + con.id, False, 'engine', str(e)[:500], ctx.model()))
        except (IRError, AssertionError, AttributeError, IndexError, KeyError, NotImplementedError, TypeError, ValueError, ZeroDivisionError,
                OverflowError, z3.Z3Exception) as e:
            # code outside the supported subset: undecided, not an internal error of the whole unit
            feasible += 1
            ctx.obs.append(Ob('obligation within reach: ' + con.id, False, 'engine', 'construct outside the supported subset: %s\n%s' % (
                repr(e)[:300], traceback.format_exc()[-600:])))
        if ctx.status == 'return':
            for k, cells in ex.statics().items():
                dirty.setdefault(k, []).append(cells)
        res['paths'] += 1
        for o in ex.obs + ctx.obs:
            o.label = con.id + '/' + o.label
            if not o.ok and not hasattr(o, 'path'):
                pass
            res['obs'].append(o)
        bad = [o for o in ex.obs + ctx.obs if not o.ok]
        if bad:
            res.setdefault('badboxes', []).append((dict(ex.boxes), list(ex.pathrel)))
        res['inlined'] |= ex.inlined
        for k, v in ex.summarised.items():
            res['summarised'][k] = res['summarised'].get(k, 0) + v
        res['ratio'] = max(res['ratio'], ctx.maxratio)
        work += ex.forks
        if len([o for o in res['obs'] if not o.ok]) >= 25:
            break
    if not feasible:
        res['error'] = 'no feasible path (vacuous)'
    res['atoms'] = atoms
    if dirty and not res['error'] and all(o.ok for o in res['obs']):
        history(con, mod, summaries, level, box_scale, timeout, smt2, deadline, ghist or {}, dirty, rnd, res)
    res['time'] = time.time() - t0
    return res


def history(con, mod, summaries, level, box_scale, timeout, smt2, deadline, old, dirty, rnd, res):
    """The call writes static storage: it is verified again in the state earlier calls can leave (constants, widened to anything)."""
    new = {k: dict(v) for k, v in old.items()}
    changed = False
    for k, snaps in dirty.items():
        for cells in snaps:
            for off, (n, v) in cells.items():
                x = new.setdefault(k, {}).get(off)
                const = type(v) is int or isinstance(v, FP) and v.E == 0 and P.is_const(v.p) or isinstance(v, (Ptr, Fn))
                if x is None:
                    new[k][off] = (n, v, const)
                    changed = True
                elif x[2] and not (const and x[0] == n and samev(x[1], v)):
                    new[k][off] = (n, v if not const else x[1], False)
                    changed = True
    res['static'] = sorted(new)
    if con.only is not None and any(not x[2] for c in new.values() for x in c.values()):
        res['obs'].append(Ob(con.id + '/frame: static storage is left unchanged', False, 'engine', 'written: ' + ', '.join(sorted(new))))
    if not changed:
        return
    if rnd >= 4:
        res['obs'].append(Ob(con.id + '/after earlier calls: obligation within reach', False, 'engine', 'static storage does not reach a steady state'))
        return
    r = run_symbolic(con, mod, summaries, level, box_scale, timeout, smt2, deadline, new, rnd + 1)
    for o in r['obs']:
        if 'after earlier calls: ' not in o.label:
            o.label = o.label.replace('/', '/after earlier calls: ', 1)
        res['obs'].append(o)
    res['paths'] += r['paths']
    res['badboxes'] = res.get('badboxes', []) + r.get('badboxes', [])
    if r['error'] and not res['error']:
        res['error'] = r['error']


def samev(a, b):
    if isinstance(a, FP) and isinstance(b, FP):
        return a.ty == b.ty and a.p == b.p
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o.name == b.o.name and type(a.off) is int and a.off == b.off if a.o is not None and b.o is not None else a.o is b.o
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    return type(a) is int and type(b) is int and a == b


def make_args(con, ex, ctx):
    args = []
    init = {}
    f = ex.mod.funcs[con.fn]
    for a in con.args:
        if isinstance(a, Int):
            v = z3.BitVec(a.name, a.w)
            if a.enum:
                v = ex.concretise(v, a.w)
                ctx.a[a.name] = sgn(v, a.w) if a.signed and a.w > 1 else v
            else:
                ctx.a[a.name] = v
                if a.signed and a.lo is not None and a.hi is not None:
                    ex.iv[v.get_id()] = (v, a.lo, a.hi)
                if a.w == 1:
                    v = v == 1
            args.append(v)
        elif isinstance(a, FVal):
            if con.raw:
                v = Opaque(a.name, a.ty)
            elif con.nra:
                v = FZ(z3.Real(a.name), a.ty, max(abs(Fraction(a.lo)), abs(Fraction(a.hi))))
                ex.assume(z3.And(v.z >= zq(Fraction(a.lo)), v.z <= zq(Fraction(a.hi))))
            else:
                v = ex.fp_atom(('arg', a.name), a.lo, a.hi, a.ty, name=a.name)
            ctx.a[a.name] = v
            args.append(v)
        else:
            o = ex.new(a.n * a.es, 'arg', a.name, ro=(a.mode == 'in'))
            els = []
            for i in range(a.n):
                if a.kind in ESZ and (con.raw or a.mode == 'out'):
                    v = Opaque('%s[%d]' % (a.name, i), a.kind)
                elif a.kind in ESZ:
                    lo, hi = a.box(i)
                    v = ex.fp_atom(('arg', a.name, i), lo, hi, a.kind, name='%s[%d]' % (a.name, i))
                else:
                    v = z3.BitVec('%s[%d]' % (a.name, i), a.kind)
                els.append(v)
                o.cells[i * a.es] = (a.es, v)
            ctx.a[a.name] = els
            ctx.bufs[a.name] = o
            init[a.name] = els
            args.append(Ptr(o, 0))
    if len(args) != len(f.params):
        raise Unproved('wrapper %s has %d parameters, contract %d' % (con.fn, len(f.params), len(args)))
    return args, init


def finish(con, ex, ctx, init):
    from .ir import DOUBLE, FLOAT, int_t
    for a in con.args:
        if isinstance(a, Buf):
            o = ctx.bufs[a.name]
            ty = {'d': DOUBLE, 'f': FLOAT}.get(a.kind) or int_t(a.kind)
            els = []
            for i in range(a.n):
                c = o.cells.get(i * a.es)
                if c is not None and c[0] == a.es:
                    v = c[1]
                    if isinstance(v, Bits):
                        v = v.v
                    if type(v) is int and a.kind in ESZ:
                        v = ex.cell(o, i * a.es, a.es, ty)
                    els.append(v)
                else:
                    els.append(ex.cell(o, i * a.es, a.es, ty))
            ctx.o[a.name] = els
            if a.mode == 'in':
                for i in range(a.n):
                    if els[i] is not init[a.name][i]:
                        ctx.same('frame: %s[%d] unchanged' % (a.name, i), els[i], init[a.name][i])
                ctx.obs.append(Ob('frame: %s not written' % a.name, o.writes == 0, 'ground evaluation'))
            elif ctx.status == 'return':
                for i in range(a.n):
                    if els[i] is UNDEF:
                        ctx.obs.append(Ob('no undefined behaviour: %s[%d] holds an indeterminate value' % (a.name, i), False, 'engine', '',
                                          ctx.model(), kind='ub'))
    if ctx.status == 'return' and con.ret != 'void' and ctx.ret is UNDEF:
        ctx.obs.append(Ob('no undefined behaviour: the result is an indeterminate value', False, 'engine', '', ctx.model(), kind='ub'))
    if ctx.status == 'abort' and not con.may_abort:
        ctx.obs.append(Ob('does not abort', False, 'engine', 'the program can end here', ctx.model()))
        return
    con.ensures(ctx)
