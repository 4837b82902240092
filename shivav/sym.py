"""Symbolic execution / verification-condition generation over LLVM IR.

Integers are exact (Python int or z3 bit-vector), memory is byte-addressed
objects of typed cells, floating-point machine values are (exact polynomial
over atoms, absolute error bound, magnitude bound)."""
import math
import re
import time
from fractions import Fraction
import numpy as np
import z3
from . import poly as P
from .lin import Lin
from .ir import IRError, T, DOUBLE, FLOAT, int_t
I8 = int_t(8)

# 'x' is the 80-bit extended type: finer than double; values beyond double's range count as overflow
U = {'d': 2.0 ** -53, 'f': 2.0 ** -24, 'x': 2.0 ** -64}
ETA = {'d': 2.0 ** -1074, 'f': 2.0 ** -149, 'x': 2.0 ** -1074}
MAXF = {'d': 1.7e308, 'f': 3.4e38, 'x': 1.7e308}
FT = {'double': 'd', 'float': 'f', 'x86_fp80': 'x'}
up = P.up


class Unproved(Exception):
    """The verifier cannot establish something it needs (not an error of the tool)."""


class UBFound(Exception):
    def __init__(s, msg):
        super().__init__(msg)


class PathEnd(Exception):
    def __init__(s, status):
        s.status = status


class Infeasible(Exception):
    pass


class Undef:
    def __repr__(s):
        return 'UNDEF'


UNDEF = Undef()


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'defn', 'recip', 'ty')

    def __init__(s, id, name, lo, hi, ty, defn=None, recip=None):
        s.id, s.name, s.lo, s.hi, s.ty, s.defn, s.recip = id, name, lo, hi, ty, defn, recip


class Atoms:
    """Atom table of one contract run (atoms persist over its paths)."""

    def __init__(self):
        self.l = []
        self.by = {}

    def get(self, key, lo=None, hi=None, ty='d', defn=None, recip=None, name=None):
        a = self.by.get(key)
        if a is None:
            a = Atom(len(self.l), name or str(key), lo, hi, ty, defn, recip)
            self.l.append(a)
            self.by[key] = a
        return a

    def name(self, i):
        return self.l[i].name


_uid = [0]


class FP:
    """Machine floating-point value: |value - p| <= E, |value| <= M."""
    __slots__ = ('p', 'E', 'M', 'ty', 'uid', 'nz')

    def __init__(s, p, E, M, ty):
        s.p, s.E, s.M, s.ty, s.nz = p, E, M, ty, False       # nz: concretely the negative zero (replay only)
        _uid[0] += 1
        s.uid = _uid[0]

    def key(s):
        if s.E == 0:
            return tuple(sorted(s.p.items()))
        return ('uid', s.uid)

    def isconst(s):
        return s.E == 0 and P.is_const(s.p)

    def __repr__(s):
        return 'FP(%s, E=%g, M=%g)' % (P.fmt(s.p, lambda i: 'a%d' % i), s.E, s.M)


class FZ:
    """Machine floating-point value as a real term for the NRA back end: every rounding is a relative error <= u
    (plus half the smallest subnormal for products and quotients)."""
    __slots__ = ('z', 'ty', 'M')

    def __init__(s, z, ty, M):
        s.z, s.ty, s.M = z, ty, M       # M: bound on the magnitude, so that no operation overflows


def zq(fr):
    return z3.Q(fr.numerator, fr.denominator)


class S:
    """Specification value: the true value v satisfies |v - p| <= E; |p| <= M."""
    __slots__ = ('p', 'E', 'M')

    def __init__(s, p, E=0.0, M=None):
        s.p, s.E = p, E
        s.M = P.fup(P.cval(p)) if M is None and P.is_const(p) else M

    def __add__(a, b):
        b = tos(b)
        return S(P.add(a.p, b.p), up(a.E + b.E), up(a.M + b.M))

    __radd__ = __add__

    def __sub__(a, b):
        b = tos(b)
        return S(P.sub(a.p, b.p), up(a.E + b.E), up(a.M + b.M))

    def __rsub__(a, b):
        return tos(b) - a

    def __neg__(a):
        return S(P.neg(a.p), a.E, a.M)

    def __mul__(a, b):
        b = tos(b)
        E = 0.0 if not (a.E or b.E) else up(up(a.M * b.E) + up(b.M * a.E) + up(a.E * b.E))
        return S(P.mul(a.p, b.p), E, up(a.M * b.M))

    __rmul__ = __mul__


def tos(x):
    if isinstance(x, S):
        return x
    if isinstance(x, FP):
        return S(x.p, x.E, x.M)
    c = Fraction(x)
    return S(P.const(c), 0.0, P.fup(c))


def fconst(c, ty):
    c = Fraction(c)
    return FP(P.const(c), 0.0, P.fup(c), ty)


def rnd(fr, ty):
    """Round an exact rational to the nearest machine value."""
    if ty == 'x':
        return round_x87(fr)
    if ty == 'd':
        try:
            r = fr.numerator / fr.denominator  # correctly rounded int/int division
        except OverflowError:
            raise Unproved('floating-point overflow')
    else:
        r = round_f32(fr)
    if math.isinf(r):
        raise Unproved('floating-point overflow')
    return Fraction(r)


def round_x87(fr):
    if not fr:
        return Fraction(0)
    a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if a < Fraction(2) ** e:
        e -= 1
    if not -1000 < e < 1000:
        raise Unproved('extended-precision constant out of range')
    sc = a / Fraction(2) ** (e - 63)
    n = sc.numerator // sc.denominator
    rem = sc - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n & 1):
        n += 1
    return (-1 if fr < 0 else 1) * n * Fraction(2) ** (e - 63)


def round_f32(fr):
    if not fr:
        return 0.0
    s = -1 if fr < 0 else 1
    a = abs(fr)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    # 2^(e-1) < a < 2^(e+1)
    if a < Fraction(2) ** e:
        e -= 1
    q = max(e - 23, -149)
    sc = a / (Fraction(2) ** q)
    n = sc.numerator // sc.denominator
    rem = sc - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n & 1):
        n += 1
    v = n * (Fraction(2) ** q)
    if v >= Fraction(2) ** 128:
        raise Unproved('floating-point overflow')
    return s * float(v)


class Bits:
    """An integer-typed copy of a floating-point or pointer cell."""
    __slots__ = ('v', 'n')

    def __init__(s, v, n):
        s.v, s.n = v, n


class Obj:
    __slots__ = ('id', 'size', 'cells', 'kind', 'name', 'live', 'ro', 'reads', 'writes', 'w8', 'alloc')

    def __init__(s, id, size, kind, name, ro=False):
        s.id, s.size, s.kind, s.name, s.ro = id, size, kind, name, ro
        s.cells = {}
        s.live = True
        s.reads = 0
        s.writes = 0
        s.w8 = False
        s.alloc = None

    def __repr__(s):
        return '<%s %s>' % (s.kind, s.name)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off):
        s.o, s.off = o, off

    def __repr__(s):
        return 'Ptr(%r,%s)' % (s.o, s.off)


class Fn:
    __slots__ = ('name',)

    def __init__(s, name):
        s.name = name


NULL = Ptr(None, 0)


def isint(v):
    return type(v) is int


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    return z3.BitVecVal(v, w) if type(v) is int else v


def norm(e):
    """Simplify a z3 expression; return Python int/bool when constant."""
    e = z3.simplify(e, elim_sign_ext=False)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def isbool(v):
    return isinstance(v, z3.BoolRef)


def tobv(v, w):
    """Operand -> z3 BV of width w (i1 booleans converted)."""
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if isbool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


class Ob:
    __slots__ = ('label', 'ok', 'backend', 'detail', 'model', 'time', 'kind')

    def __init__(s, label, ok, backend, detail='', model=None, t=0.0, kind='post'):
        s.label, s.ok, s.backend, s.detail, s.model, s.time, s.kind = label, ok, backend, detail, model, t, kind


class Exec:
    """One path of one contract."""
    MAXSTEPS = 6000000

    def __init__(self, mod, atoms, summaries, prefix, base, stats, timeout=20000):
        self.mod = mod
        self.atoms = atoms
        self.summaries = summaries
        self.prefix = list(prefix)
        self.dec = []
        self.forks = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.timeout = timeout
        self.nra = False
        self.pc = []
        self.lin = Lin()
        for b in base:
            self.assume(b)
        self.boxes = {}
        self.obs = []
        self.trace = []
        self.nfree = 0
        self.events = []
        self.steps = 0
        self.gobj = {}
        self.ghist = {}
        self.argobj = {}
        self.nobj = 0
        self.stats = stats
        self.facts = []
        self.rel = {}
        self.pathrel = []
        self.approx = False
        self.depth = 0
        self.handles = {}
        self.notes = {}
        self.fzmemo = {}
        self.iv = {}
        self.inlined = set()
        self.summarised = {}

    # ---- solver ---------------------------------------------------------
    def assume(self, b):
        if b is True or b is False:
            if b is False:
                raise Infeasible()
            return
        self.pc.append(b)
        self.solver.add(b)
        self.lin.learn(b)

    def sat(self, b):
        t = time.time()
        self.solver.push()
        self.solver.add(b)
        r = self.solver.check()
        self.solver.pop()
        self.stats['smt_queries'] += 1
        self.stats['smt_time'] += time.time() - t
        return r

    def prove(self, label, b, kind='post'):
        if type(b) is int or type(b) is bool:
            if kind == 'ub':
                self.stats['ground'] += 1
                if b:
                    return True
            o = Ob(label, bool(b), 'ground evaluation', kind=kind)
            if not b:
                self.solver.check()
                try:
                    o.model = self.solver.model()
                except z3.Z3Exception:
                    pass
            self.obs.append(o)
            return o.ok
        t = time.time()
        if self.lin.decide(b) is True:
            if self.stats.get('smt2') is not None:
                # thorough tier: the solver must not disagree
                self.solver.push()
                self.solver.add(z3.Not(b))
                r = self.solver.check()
                self.solver.pop()
                assert r != z3.sat, 'integer form and solver disagree on ' + label
                self.stats['lin_checked'] = self.stats.get('lin_checked', 0) + (r == z3.unsat)
            self.obs.append(Ob(label, True, 'integer forms', '', None, time.time() - t, kind))
            return True
        model = None
        det = ''
        r = z3.unknown
        if not self.nra:
            self.solver.push()
            self.solver.add(z3.Not(b))
            r = self.solver.check()
            if r == z3.sat:
                model = self.solver.model()
            elif r == z3.unknown:
                det = 'solver: unknown (%s)' % self.solver.reason_unknown()
            elif self.stats.get('smt2') is not None and len(self.stats['smt2']) < 40:
                self.stats['smt2'].append(self.solver.to_smt2())
            self.solver.pop()
        # nonlinear real arithmetic, or undecided: fresh solvers of several kinds
        for mk in (z3.Solver, lambda: z3.Tactic('smt').solver(), z3.SimpleSolver,
                   lambda: z3.Then('simplify', 'propagate-values', 'qfnra-nlsat').solver() if self.nra else z3.SolverFor('QF_BV')):
            if r != z3.unknown:
                break
            s = mk()
            s.set('timeout', self.timeout)
            s.add(*self.pc)
            s.add(z3.Not(b))
            r = s.check()
            if r == z3.sat:
                model = s.model()
            elif r == z3.unknown:
                det = 'solver: unknown (%s)' % s.reason_unknown()
            elif self.stats.get('smt2') is not None and len(self.stats['smt2']) < 40:
                self.stats['smt2'].append(s.to_smt2())
        if r == z3.sat:
            det = 'counterexample: ' + str(model)
        dt = time.time() - t
        self.stats['smt_queries'] += 1
        self.stats['smt_time'] += dt
        self.obs.append(Ob(label, r == z3.unsat, 'z3', det, model, dt, kind))
        return r == z3.unsat

    def ub(self, label, ok):
        """Side condition: ok must hold; afterwards it is assumed."""
        if type(ok) is int or type(ok) is bool:
            self.stats['ground'] += 1
            if not ok:
                raise UBFound(label)
            return
        ok = z3.simplify(ok, elim_sign_ext=False)
        if z3.is_true(ok):
            self.stats['ground'] += 1
            return
        if not self.prove('no undefined behaviour: ' + label, ok, 'ub'):
            self.assume(ok)
            if self.solver.check() == z3.unsat:
                raise PathEnd('ub')

    def branch(self, c):
        """c: int/bool or z3 Bool -> Python bool, forking when both are feasible."""
        if type(c) is int or type(c) is bool:
            return bool(c)
        k = len(self.dec)
        if k < len(self.prefix):
            ch = self.prefix[k]
        else:
            c1 = z3.simplify(c, elim_sign_ext=False)
            if z3.is_true(c1):
                ch = True
            elif z3.is_false(c1):
                ch = False
            elif self.lin.decide(c1) is not None:
                ch = self.lin.decide(c1)
            else:
                t = self.sat(c) != z3.unsat
                f = self.sat(z3.Not(c)) != z3.unsat
                if not t and not f:
                    raise Infeasible()
                ch = t
                if t and f:
                    self.forks.append(self.dec + [False])
        self.dec.append(ch)
        self.assume(c if ch else z3.Not(c))
        return ch

    def concretise(self, v, w, limit=600):
        if type(v) is int:
            return v
        if isbool(v):
            return 1 if self.branch(v) else 0
        k = len(self.dec)
        if k < len(self.prefix):
            ch = self.prefix[k]
        else:
            vals = []
            self.solver.push()
            while True:
                r = self.solver.check()
                self.stats['smt_queries'] += 1
                if r == z3.unsat:
                    break
                if r == z3.unknown or len(vals) > limit:
                    self.solver.pop()
                    raise Unproved('too many feasible values for a symbolic address or conversion')
                x = self.solver.model().eval(v, model_completion=True).as_long()
                vals.append(x)
                self.solver.add(v != x)
            self.solver.pop()
            if not vals:
                raise Infeasible()
            ch = vals[0]
            for x in vals[1:]:
                self.forks.append(self.dec + [x])
        self.dec.append(ch)
        self.assume(v == ch)
        return ch

    # ---- memory ---------------------------------------------------------
    def new(self, size, kind, name, ro=False):
        self.nobj += 1
        o = Obj(self.nobj, size, kind, name, ro)
        if kind == 'arg':
            self.argobj[name] = o
        return o

    def access(self, p, size, what):
        if p is UNDEF:
            raise UBFound('%s through an uninitialised pointer' % what)
        if isinstance(p, Fn):
            raise UBFound('%s of a function pointer' % what)
        if isinstance(p, Bits):
            p = p.v
        if not isinstance(p, Ptr) or p.o is None:
            raise UBFound('%s through a null pointer' % what)
        o = p.o
        if not o.live:
            raise UBFound('%s of %s after its lifetime' % (what, o.name))
        off = p.off
        if type(off) is not int:
            self.ub('%s of %d bytes of %s in bounds' % (what, size, o.name),
                    z3.And(off >= 0, off <= o.size - size))
            off = self.concretise(off, 64)
            off = sgn(off, 64)
        if off < 0 or off + size > o.size:
            raise UBFound('%s of %d bytes at offset %d of %s (size %d)' % (what, size, off, o.name, o.size))
        self.stats['ground'] += 1
        return o, off

    def load(self, p, ty):
        k = ty.k
        if k == 'struct':
            offs = self.mod.layout(ty)[0]
            return [self.load(self.padd(p, o), e) for o, e in zip(offs, ty.el)]
        if k in ('arr', 'vec'):
            s = self.mod.size(ty.el)
            return [self.load(self.padd(p, i * s), ty.el) for i in range(ty.n)]
        n = self.mod.size(ty)
        o, off = self.access(p, n, 'read')
        if o.kind == 'arg':
            o.reads += 1
        return self.cell(o, off, n, ty)

    def cell(self, o, off, n, ty):
        k = ty.k
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if k == 'i':
                if type(v) is int:
                    return v & ((1 << ty.w) - 1)
                if isinstance(v, z3.BitVecRef):
                    if v.size() != ty.w:
                        if ty.w == 1:
                            return norm1(z3.Extract(0, 0, v) == 1)
                        return norm(z3.Extract(ty.w - 1, 0, v))
                    return v
                if isinstance(v, (FP, FZ, Ptr, Fn, Special)):
                    return Bits(v, n)
                return v
            if k in FT:
                t = FT[k]
                if isinstance(v, Bits):
                    v = v.v
                if isinstance(v, FP) or isinstance(v, FZ):
                    if v.ty == t:
                        return v
                    raise Unproved('reinterpretation of a floating-point cell')
                if isinstance(v, Special):
                    if isinstance(v, Opaque) and v.oty != t:
                        raise Unproved('reinterpretation of a floating-point cell')
                    return v
                if type(v) is int:
                    return int_to_fp(v, t)
                raise Unproved('symbolic integer read as floating point')
            if k == 'ptr':
                if isinstance(v, Bits):
                    v = v.v
                if isinstance(v, (Ptr, Fn)):
                    return v
                if v == 0 and type(v) is int:
                    return NULL
                raise Unproved('integer read as pointer')
        # assemble from other cells
        bs = self.bytes_of(o, off, n)
        if bs is None:
            return UNDEF
        if all(type(b) is int for b in bs):
            v = int.from_bytes(bytes(bs), 'little')
            if k == 'i':
                return v & ((1 << ty.w) - 1)
            if k in FT:
                return int_to_fp(v, FT[k])
            if v == 0:
                return NULL
            raise Unproved('integer read as pointer')
        if k != 'i':
            raise Unproved('partial reinterpretation of memory')
        if any(isinstance(b, tuple) for b in bs):
            # pieces of floating-point cells
            return Bits(('mix', [b for b in bs]), n)
        e = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bs[0]
        return norm(e)

    def bytes_of(self, o, off, n):
        out = []
        i = off
        while i < off + n:
            c = None
            for st in range(i, max(-1, i - 16), -1):
                x = o.cells.get(st)
                if x is not None:
                    if st + x[0] > i:
                        c = (st, x)
                    break
            if c is None:
                return None
            st, (sz, v) = c
            for j in range(i - st, sz):
                if i >= off + n:
                    break
                out.append(byte_of(v, j, sz))
                i += 1
        return out

    def clear(self, o, off, n):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n and not o.w8:
            del cells[off]
            return
        lo = off
        for st in range(off - 1, max(-1, off - 17), -1):
            x = cells.get(st)
            if x is not None:
                if st + x[0] > off:
                    self.split(o, st)
                break
        st = off
        while st < off + n:
            x = cells.get(st)
            if x is not None:
                if st + x[0] > off + n:
                    self.split(o, st)
                    x = cells.get(st)
                del cells[st]
                st += x[0]
            else:
                st += 1

    def split(self, o, st):
        sz, v = o.cells.pop(st)
        for j in range(sz):
            o.cells[st + j] = (1, byte_of(v, j, sz))

    def store(self, p, v, ty):
        k = ty.k
        if k == 'struct':
            for x, off, e in zip(v, self.mod.layout(ty)[0], ty.el):
                self.store(self.padd(p, off), x, e)
            return
        if k in ('arr', 'vec'):
            s = self.mod.size(ty.el)
            for i, x in enumerate(v):
                self.store(self.padd(p, i * s), x, ty.el)
            return
        n = self.mod.size(ty)
        o, off = self.access(p, n, 'write')
        if o.ro:
            raise UBFound('write to read-only object %s' % o.name)
        if o.kind in ('arg', 'global'):
            o.writes += 1
        self.put(o, off, n, v, ty)

    def put(self, o, off, n, v, ty=None):
        self.clear(o, off, n)
        if v is UNDEF:
            return
        if isinstance(v, Bits) and isinstance(v.v, tuple):
            for j, b in enumerate(v.v[1]):
                o.cells[off + j] = (1, b)
            return
        if isbool(v):
            v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
        elif isinstance(v, z3.BitVecRef) and v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        if isinstance(v, Bits):
            v = v.v
        o.cells[off] = (n, v)

    def padd(self, p, d):
        if not d:
            return p
        if p is UNDEF:
            raise UBFound('arithmetic on an uninitialised pointer')
        if isinstance(p.off, int):
            return Ptr(p.o, p.off + d)
        return Ptr(p.o, norm(p.off + d))

    def memcpy(self, d, s, n):
        n = self.concretise(n, 64)
        if n == 0:
            return
        so, soff = self.access(s, n, 'read')
        do, doff = self.access(d, n, 'write')
        if do.ro:
            raise UBFound('write to read-only object %s' % do.name)
        if so.kind == 'arg':
            so.reads += 1
        if do.kind in ('arg', 'global'):
            do.writes += 1
        items = []
        i = soff
        for st in range(soff - 1, max(-1, soff - 17), -1):
            x = so.cells.get(st)
            if x is not None:
                if st + x[0] > soff:
                    self.split(so, st)
                break
        for st in sorted(k for k in so.cells if soff <= k < soff + n):
            x = so.cells.get(st)
            if x is None:
                continue
            if st + x[0] > soff + n:
                self.split(so, st)
                for j in range(st, soff + n):
                    items.append((j - soff, so.cells[j]))
                break
            items.append((st - soff, x))
        self.clear(do, doff, n)
        for off, x in items:
            do.cells[doff + off] = x

    def memset(self, d, v, n):
        n = self.concretise(n, 64)
        if n == 0:
            return
        o, off = self.access(d, n, 'write')
        if o.ro:
            raise UBFound('write to read-only object %s' % o.name)
        if o.kind in ('arg', 'global'):
            o.writes += 1
        self.clear(o, off, n)
        for j in range(n):
            o.cells[off + j] = (1, v)

    def gptr(self, name, off):
        if name in self.gobj:
            return Ptr(self.gobj[name], off)
        if name in self.mod.funcs or name in self.mod.decls:
            return Fn(name)
        ty, init, const = self.mod.gvar(name)
        o = self.new(self.mod.size(ty), 'global', '@' + name, False)
        self.gobj[name] = o
        if init is not None:
            self.initc(o, 0, ty, init)
        else:
            h = self.new(0, 'extern', name)
            o.cells[0] = (8, Ptr(h, 0))
        o.ro = const
        if name in self.ghist:
            self.earlier(name, o)
        return Ptr(o, off)

    def earlier(self, name, o):
        """Contents earlier calls left in static storage: known constants, or anything."""
        for off, (n, v, known) in self.ghist[name].items():
            self.clear(o, off, n)
            if isinstance(v, Ptr) and v.o is not None and v.o.kind == 'arg' and v.o.name in self.argobj:
                # an earlier call may have been given the same memory or other memory
                if self.branch(z3.Bool('same memory %s+%d' % (name, off))):
                    v = Ptr(self.argobj[v.o.name], v.off)
            elif known:
                pass
            elif isinstance(v, FP):
                B = max(v.M, 1.0) * 2.0 ** 20
                v = self.fp_atom(('static', name, off), -B, B, v.ty, name='%s+%d' % (name, off))
            elif isinstance(v, Opaque):
                v = Opaque('%s+%d' % (name, off), v.ty)
            elif isinstance(v, (Ptr, Fn)):
                pass
            else:
                v = z3.BitVec('%s+%d' % (name, off), 8 * n)
            o.cells[off] = (n, v)

    def statics(self):
        """Static storage this path has written: name -> cells."""
        return {k: dict(o.cells) for k, o in self.gobj.items() if o.writes and not o.ro}

    def rendered(self, fmt, args):
        """Bounds on the number of characters a printf format gives (the upper one serves two-pass formatting)."""
        t = ''.join(map(chr, self.text(fmt)))
        lo = hi = 0
        k = 0
        for lit, spec in re.findall(r'([^%]+)|(%[-+ #0]*[\d*]*(?:\.[\d*]+)?(?:hh|h|ll|l|j|z|t|L)?[a-zA-Z%])', t):
            if lit:
                lo, hi = lo + len(lit), hi + len(lit)
            elif spec == '%%':
                lo, hi = lo + 1, hi + 1
            else:
                a = args[k] if k < len(args) else None
                k += 1
                if spec[-1] == 's' and isinstance(a, Ptr):
                    # text that is itself rendered: its own bounds are unknown here
                    n = self.strlen(a) if not self.notes.get(id(a.o)) else None
                    lo, hi = (lo + n, hi + n) if n is not None else (lo, hi + 70000)
                else:
                    lo, hi = lo + 1, hi + 400
        return lo, hi

    def text(self, p):
        return [self.load(self.padd(p, i), I8) for i in range(self.strlen(p))]

    def strlen(self, p):
        n = 0
        while True:
            v = self.load(self.padd(p, n), I8)
            if type(v) is not int:
                raise Unproved('strlen of symbolic text')
            if v == 0:
                return n
            n += 1

    def initc(self, o, off, ty, v):
        k = ty.k
        if isinstance(v, tuple) and v[0] == 'undef':
            return
        if k == 'struct':
            for x, d, e in zip(v[1], self.mod.layout(ty)[0], ty.el):
                self.initc(o, off + d, e, x)
        elif k in ('arr', 'vec'):
            s = self.mod.size(ty.el)
            if ty.n > 100000:
                raise Unproved('huge global')
            for i, x in enumerate(v[1]):
                self.initc(o, off + i * s, ty.el, x)
        else:
            o.cells[off] = (self.mod.size(ty), self.cv(v, ty))

    # ---- values ---------------------------------------------------------
    def cv(self, v, ty):
        """Constant operand -> value."""
        if type(v) is int:
            return v
        t = v[0]
        if t == 'fp':
            if v[1] == '-0':
                r = fconst(Fraction(0), FT[ty.k])
                r = FP(r.p, r.E, r.M, r.ty)
                r.nz = True
                return r
            if isinstance(v[1], str):
                return Special(v[1])
            return fconst(v[1], FT[ty.k])
        if t == 'g':
            return self.gptr(v[1], v[2])
        if t == 'null':
            return NULL
        if t == 'addr':
            return Ptr(None, v[1])
        if t == 'undef':
            if ty.k in ('struct', 'arr', 'vec'):
                els = ty.el if ty.k == 'struct' else [ty.el] * ty.n
                return [self.cv(v, e) for e in els]
            return UNDEF
        if t == 'agg':
            els = ty.el if ty.k == 'struct' else [ty.el] * ty.n
            return [self.cv(x, e) for x, e in zip(v[1], els)]
        raise IRError('constant %r' % (v,))

    # ---- floating point -------------------------------------------------
    def box(self, a):
        b = self.boxes.get(a)
        if b is not None:
            return b
        x = self.atoms.l[a]
        return (x.lo, x.hi)

    def fp_atom(self, key, lo, hi, ty, defn=None, name=None):
        a = self.atoms.get(key, lo, hi, ty, defn, None, name)
        lo, hi = self.box(a.id)
        return FP(P.atom(a.id), 0.0, max(abs(lo), abs(hi)), ty)

    def mk(self, p, E, M, ty):
        """Result with bound tightened by the polynomial bound when cheap."""
        if len(p) <= 40:
            M = min(M, up(P.sup(p, self.box) + E))
        if not (M < MAXF[ty]):
            raise Unproved('possible floating-point overflow')
        return FP(p, E, M, ty)

    def chkfp(self, a):
        if isinstance(a, FP):
            return a
        if a is UNDEF:
            raise UBFound('arithmetic on an uninitialised floating-point value')
        if isinstance(a, Special):
            raise Unproved('arithmetic on %s' % ('arbitrary bits: ' + a.v if isinstance(a, Opaque) else 'a non-finite constant'))
        raise Unproved('floating-point operand %r' % (a,))

    def fadd(self, a, b, sub=False):
        ty = a.ty
        if a.isconst() and b.isconst():
            x, y = P.cval(a.p), P.cval(b.p)
            return fconst(rnd(x - y if sub else x + y, ty), ty)
        if b.isconst() and not b.p:
            return a
        if a.isconst() and not a.p:
            return FP(P.neg(b.p), b.E, b.M, ty) if sub else b
        p = P.sub(a.p, b.p) if sub else P.add(a.p, b.p)
        if not p and a.E == 0 and b.E == 0:
            return fconst(0, ty)
        M = up(a.M + b.M)
        M = min(M, up(P.sup(p, self.box) + a.E + b.E)) if len(p) <= 40 else M
        E = up(a.E + b.E + up(U[ty] * M))
        return self.mk(p, E, up(M * (1 + 2 * U[ty])), ty)

    def exact2(self, p, ty):
        """p is an input times a power of two, and always representable in ty (no underflow)."""
        if len(p) != 1:
            return False
        (m, c), = p.items()
        if len(m) != 1 or m[0][1] != 1:
            return False
        n = abs(c)
        if n.numerator & (n.numerator - 1) or n.denominator & (n.denominator - 1):
            return False
        at = self.atoms.l[m[0][0]]
        if at.recip is not None or at.ty not in ('d', 'f', 'x'):
            return False
        if 'fdx'.index(at.ty) > 'fdx'.index(ty):
            return False
        if n >= 1 and at.ty == ty:
            return True
        if at.ty == 'f' and ty != 'f' and 2.0 ** -800 <= float(n) <= 2.0 ** 800:
            return True
        lo, hi = self.box(m[0][0])
        # None: exact except for underflow
        if lo <= 0 <= hi:
            return None
        return min(abs(lo), abs(hi)) * float(n) >= (2.0 ** -120 if ty == 'f' else 2.0 ** -1000) or None

    def fmul(self, a, b):
        ty = a.ty
        if a.isconst() and b.isconst():
            return fconst(rnd(P.cval(a.p) * P.cval(b.p), ty), ty)
        for x, y in ((a, b), (b, a)):
            if y.isconst():
                c = P.cval(y.p)
                if not c:
                    return fconst(0, ty)
                n = abs(c)
                if n == 1:
                    return x if c == 1 else FP(P.neg(x.p), x.E, x.M, ty)
                if (n.numerator & (n.numerator - 1)) == 0 and (n.denominator & (n.denominator - 1)) == 0:
                    f = float(n)
                    E = up(x.E * f)
                    p = P.scale(x.p, c)
                    if f < 1 and not (x.E == 0 and self.exact2(p, ty)):
                        E = up(E + ETA[ty])
                    return self.mk(p, E, up(x.M * f), ty)
        M = up(a.M * b.M)
        E = up(up(U[ty] * M) + ETA[ty])
        if a.E or b.E:
            E = up(E + up(a.M * b.E) + up(up(b.M + b.E) * a.E))
        return self.mk(P.mul(a.p, b.p), E, up(M * (1 + 2 * U[ty])), ty)

    def lower(self, p):
        """Positive lower bound of |p| over the box or by a fact (0.0 when none)."""
        if P.is_const(p):
            return math.nextafter(abs(float(P.cval(p))), 0.0) if p else 0.0
        best = 0.0
        for lo, hi in [P.interval(p, self.box)] + ([(min(x[0] for x in ps), max(x[1] for x in ps))] if self.rel and (ps := self.pieces(p)) else []):
            if lo > 0:
                best = max(best, lo)
            elif hi < 0:
                best = max(best, -hi)
        if len(p) == 1:
            (m, c), = p.items()
            t = math.nextafter(abs(float(c)), 0.0)
            for a, e in m:
                l, h = self.box(a)
                if e > 0:
                    x = 0.0 if l <= 0 <= h else min(abs(l), abs(h)) ** e
                else:
                    x = 1.0 / (max(abs(l), abs(h)) ** (-e))
                t = t * x * (1 - 1e-15)
            best = max(best, t)
        for q, d in self.facts:
            if not q:
                continue
            m = next(iter(q))
            if m in p:
                k = p[m] / q[m]
                diff = P.sub(p, P.scale(q, k))
                s = P.sup(diff, self.box) if diff else 0.0
                t = abs(float(k)) * d * (1 - 1e-15) - s
                best = max(best, t)
        return best

    def recip_poly(self, q, L0):
        """Polynomial for 1/q given |q| >= L0 > 0."""
        if P.is_const(q):
            return P.const(1 / P.cval(q))
        if len(q) == 1:
            (m, c), = q.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        m0 = min(q)
        c0 = q[m0]
        qh = P.scale(q, 1 / c0)
        key = ('recip', tuple(sorted(qh.items())))
        b = abs(float(c0)) * (1 + 1e-15) / L0
        a = self.atoms.get(key, -b, b, 'd', None, qh, 'recip%d' % len(self.atoms.l))
        return P.scale(P.atom(a.id), 1 / c0)

    def fdiv(self, a, b):
        ty = a.ty
        if a.isconst() and b.isconst():
            if not b.p:
                raise Unproved('floating-point division by zero')
            return fconst(rnd(P.cval(a.p) / P.cval(b.p), ty), ty)
        if b.isconst():
            c = P.cval(b.p)
            if not c:
                raise Unproved('floating-point division by zero')
            n = abs(c)
            f = P.fup(1 / n)
            if n == 1:
                return a if c == 1 else FP(P.neg(a.p), a.E, a.M, ty)
            p = P.scale(a.p, 1 / c)
            if (n.numerator & (n.numerator - 1)) == 0 and (n.denominator & (n.denominator - 1)) == 0:
                return self.mk(p, 0.0 if a.E == 0 and self.exact2(p, ty) else up(up(a.E * f) + ETA[ty]), up(a.M * f), ty)
            M = up(a.M * f)
            return self.mk(p, up(up(a.E * f) + up(U[ty] * M) + ETA[ty]), up(M * (1 + 2 * U[ty])), ty)
        L0 = self.lower(b.p)
        L = math.nextafter((L0 - b.E) * (1 - 1e-15), 0.0)
        if not L > 0:
            raise Unproved('cannot show the divisor is bounded away from zero: ' + P.fmt(b.p, self.atoms.name))
        r = self.recip_poly(b.p, L0)
        p = P.mul(a.p, r)
        M = up(a.M / L)
        E = up(up(a.E / L) + up(up((a.M + a.E) / L) * up(b.E / L0)) + up(U[ty] * M) + ETA[ty])
        return self.mk(p, E, up(M * (1 + 2 * U[ty])), ty)

    def ffma(self, a, b, c):
        ty = a.ty
        p = P.add(P.mul(a.p, b.p), c.p)
        if a.isconst() and b.isconst() and c.isconst():
            return fconst(rnd(P.cval(p), ty), ty)
        M = up(up(a.M * b.M) + c.M)
        E = up(c.E + up(a.M * b.E) + up((b.M + b.E) * a.E) + up(U[ty] * M) + ETA[ty])
        return self.mk(p, E, up(M * (1 + 2 * U[ty])), ty)

    def fcmp(self, pred, a, b):
        if pred in ('true', 'false'):
            return int(pred == 'true')
        if isinstance(a, FZ) or isinstance(b, FZ):
            x, y = self.tofz(a).z, self.tofz(b).z
            if pred in ('ord', 'uno'):
                return int(pred == 'ord')
            return norm1({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                          'eq': lambda: x == y, 'ne': lambda: x != y}[pred[1:]]())
        if isinstance(a, Special) or isinstance(b, Special):
            raise Unproved('comparison with a non-finite or arbitrary value')
        a, b = self.chkfp(a), self.chkfp(b)
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        op = pred[1:]
        d = P.sub(a.p, b.p)
        E = a.E + b.E
        if a is b or (not d and E == 0):
            s = {0}
        elif E == 0 and P.is_const(d):
            c = P.cval(d)
            s = {1 if c > 0 else -1}
        else:
            s = None
        if s is None:
            lin = None
            if E == 0 and len(P.atoms_of(d)) == 1:
                (aid,) = P.atoms_of(d)
                if set(d) <= {((aid, 1),), ()}:
                    k = d[((aid, 1),)]
                    x0 = -P.cval(d) / k   # d = k (x - x0)
                    lin = (aid, 1 if k > 0 else -1, x0)
            if lin:
                aid, kk, x0 = lin
                lo, hi = self.box(aid)
                flo, fhi = Fraction(lo), Fraction(hi)
                poss = set()
                if flo < x0:
                    poss.add(-kk)
                if fhi > x0:
                    poss.add(kk)
                if flo <= x0 <= fhi:
                    poss.add(0)
            else:
                poss = set()
                for lo, hi in self.pieces(d):
                    if lo - E < 0:
                        poss.add(-1)
                    if hi + E > 0:
                        poss.add(1)
                    if lo - E <= 0 <= hi + E:
                        poss.add(0)
                if not poss:
                    raise Infeasible()
            s = poss
        truth = {'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {1, 0}, 'eq': {0}, 'ne': {-1, 1}}[op]
        if s <= truth:
            return 1
        if not (s & truth):
            return 0
        # fork
        k = len(self.dec)
        if k < len(self.prefix):
            ch = self.prefix[k]
        else:
            ch = True
            self.forks.append(self.dec + [False])
        self.dec.append(ch)
        s = s & truth if ch else s - truth
        if lin:
            aid, kk, x0 = lin
            lo, hi = self.box(aid)
            ty = self.atoms.l[aid].ty
            cand_lo, cand_hi = lo, hi
            sx = {kk * t for t in s}   # sign of (x - x0)
            f0 = float(x0)
            if 1 not in sx:     # x <= x0
                cand_hi = min(hi, f0 if 0 in sx else prevf(x0, ty))
            if -1 not in sx:    # x >= x0
                cand_lo = max(lo, f0 if 0 in sx else nextf(x0, ty))
            if sx == {1, -1}:
                pass
            if cand_lo > cand_hi:
                raise Infeasible()
            self.boxes[aid] = (cand_lo, cand_hi)
            if cand_lo == cand_hi:
                pass
        else:
            self.approx = True
            self.pathrel.append((d, -math.inf if -1 in s else 0.0, math.inf if 1 in s else 0.0))
            self.relate(d, -math.inf if -1 in s else -E, math.inf if 1 in s else E)
        return int(ch)

    def relkey(self, d):
        """d = k q + c0 with q monic and without constant term."""
        c0 = d.get((), Fraction(0))
        q = {m: c for m, c in d.items() if m}
        k = q[min(q)]
        return tuple(sorted((m, c / k) for m, c in q.items())), k, c0

    def relate(self, d, lo, hi):
        """Record lo <= d <= hi (tightened by what is already known) for the rest of the path."""
        ps = [(max(l, lo), min(h, hi)) for l, h in self.pieces(d) if max(l, lo) <= min(h, hi)]
        if not ps:
            raise Infeasible()
        lo, hi = min(p[0] for p in ps), max(p[1] for p in ps)
        key, k, c0 = self.relkey(d)
        a = lo if math.isinf(lo) else (Fraction(lo) - c0) / k
        b = hi if math.isinf(hi) else (Fraction(hi) - c0) / k
        if k < 0:
            a, b = (-b if b in (math.inf, -math.inf) else b), (-a if a in (math.inf, -math.inf) else a)
        self.rel[key] = (a, b)

    def pieces(self, d):
        """One or two intervals that contain d on this path: term-wise bound, earlier comparisons of the same polynomial,
        and facts |q| >= delta."""
        if P.is_const(d):
            c = float(P.cval(d))
            return [(prev1(c), next1(c))]
        lo, hi = P.interval(d, self.box)
        if self.rel:
            key, k, c0 = self.relkey(d)
            r = self.rel.get(key)
            if r:
                a, b = r if k > 0 else (r[1], r[0])
                l = prev1(float(k * a + c0)) if isinstance(a, Fraction) else -math.inf
                h = next1(float(k * b + c0)) if isinstance(b, Fraction) else math.inf
                lo, hi = max(lo, l), min(hi, h)
        out = [(lo, hi)] if lo <= hi else []
        for q, dl in self.facts:
            if P.is_const(q):
                continue
            m = next(x for x in q if x)
            if m not in d:
                continue
            kk = d[m] / q[m]
            rest = P.sub(d, P.scale(q, kk))
            rl, rh = P.interval(rest, self.box) if rest else (0.0, 0.0)
            g = prev1(abs(float(kk)) * dl * (1 - 1e-15))
            if not g > 0:
                continue
            # d <= -g + rh  or  d >= g + rl
            new = []
            for l, h in out:
                a = (l, min(h, next1(rh - g)))
                b = (max(l, prev1(rl + g)), h)
                if a[1] >= b[0]:
                    new.append((l, h))
                else:
                    new += [x for x in (a, b) if x[0] <= x[1]]
            out = new
        return out

    # ---- execution ------------------------------------------------------
    def call(self, name, args, attrs=None):
        h = self.summaries.get(name)
        if h is not None:
            r = h(self, name, args)
            if r is not NotImplemented:
                self.summarised[name] = self.summarised.get(name, 0) + 1
                return r
        f = self.mod.funcs.get(name)
        if f is None:
            return self.external(name, args)
        self.inlined.add(name)
        self.depth += 1
        if self.depth > 400:
            raise Unproved('call depth')
        blocks = self.mod.body(f)
        env = {}
        if len(args) < len(f.params):
            raise UBFound('call of %s with too few arguments' % name)
        for (ty, reg, at), v in zip(f.params, args):
            env[reg] = v
        if f.varargs:
            env['...'] = args[len(f.params):]
        frame = []
        try:
            return self.run(f, blocks, env, frame)
        finally:
            self.depth -= 1
            for o in frame:
                o.live = False

    def run(self, f, blocks, env, frame):
        lab = f.entry
        prev = None
        mod = self.mod
        steps = 0

        def val(v, ty):
            if type(v) is int:
                return v
            if v[0] == 'r':
                return env[v[1]]
            return self.cv(v, ty)
        while True:
            blk = blocks[lab]
            phis = None
            for ins in blk:
                op = ins.op
                self.steps += 1
                if op == 'load':
                    env[ins.dst] = self.load(val(ins.a, None), ins.ty)
                elif op == 'store':
                    v, p = ins.a
                    self.store(val(p, None), val(v, ins.ty), ins.ty)
                elif op == 'call':
                    (callee, args) = ins.a
                    r = self.docall(callee, args, val, env, ins)
                    if ins.dst is not None:
                        env[ins.dst] = r
                elif op == 'gep':
                    env[ins.dst] = self.gep(ins, val)
                elif op == 'alloca':
                    n = ins.a
                    n = n if type(n) is int else self.concretise(val(n, None), 64)
                    o = self.new(mod.size(ins.ty) * n, 'stack', '%s in %s' % (ins.dst, f.name))
                    frame.append(o)
                    env[ins.dst] = Ptr(o, 0)
                elif op == 'bin':
                    a, b = ins.a
                    env[ins.dst] = self.binop(ins, val(a, ins.ty), val(b, ins.ty))
                elif op == 'fbin':
                    a, b = ins.a
                    o = ins.x[0]
                    if ins.ty.k == 'vec':
                        env[ins.dst] = [self.fb(o, x, y) for x, y in zip(val(a, ins.ty), val(b, ins.ty))]
                    else:
                        env[ins.dst] = self.fb(o, val(a, ins.ty), val(b, ins.ty))
                elif op == 'jmp':
                    prev, lab = lab, ins.a
                    break
                elif op == 'br':
                    c, t, e = ins.a
                    c = val(c, None)
                    if c is UNDEF:
                        raise UBFound('branch on an uninitialised value')
                    if isinstance(c, z3.BitVecRef):
                        c = c == 1
                    prev, lab = lab, (t if self.branch(c) else e)
                    break
                elif op == 'ret':
                    return None if ins.a is None else val(ins.a, ins.ty)
                elif op == 'cast':
                    ty, a = ins.a
                    env[ins.dst] = self.cast(ins.x, ty, ins.ty, val(a, ty))
                elif op == 'icmp':
                    a, b = ins.a
                    env[ins.dst] = self.icmp(ins.x, ins.ty, val(a, ins.ty), val(b, ins.ty))
                elif op == 'fcmp':
                    a, b = ins.a
                    env[ins.dst] = self.fcmp(ins.x, val(a, ins.ty), val(b, ins.ty))
                elif op == 'fneg':
                    a = val(ins.a, ins.ty)
                    if isinstance(a, FZ):
                        env[ins.dst] = FZ(-a.z, a.ty, a.M)
                        continue
                    a = self.chkfp(a)
                    env[ins.dst] = FP(P.neg(a.p), a.E, a.M, a.ty)
                elif op == 'extractvalue':
                    v = val(ins.a[0], ins.ty)
                    for i in ins.a[1]:
                        v = v[i]
                    env[ins.dst] = v
                elif op == 'insertvalue':
                    v = val(ins.a[0], ins.ty)
                    env[ins.dst] = insert(v, val(ins.a[1], None) if not (isinstance(ins.a[1], tuple) and ins.a[1][0] != 'r') else self.cv(ins.a[1], elty(ins.ty, ins.a[2])), ins.a[2])
                elif op == 'extractelement':
                    v = val(ins.a[0], ins.ty)
                    env[ins.dst] = v[self.concretise(val(ins.a[1], None), 64)]
                elif op == 'insertelement':
                    v = list(val(ins.a[0], ins.ty))
                    v[self.concretise(val(ins.a[2], None), 64)] = val(ins.a[1], ins.ty.el)
                    env[ins.dst] = v
                elif op == 'select':
                    c, a, b = ins.a
                    c = val(c, None)
                    if c is UNDEF:
                        raise UBFound('select on an uninitialised value')
                    a, b = val(a, ins.ty), val(b, ins.ty)
                    if type(c) is not int and ins.ty.k == 'i' and not isinstance(a, Bits) and not isinstance(b, Bits) \
                            and a is not UNDEF and b is not UNDEF:
                        if ins.ty.w == 1:
                            env[ins.dst] = norm1(z3.If(c, mkbool(a), mkbool(b)))
                        else:
                            env[ins.dst] = norm(z3.If(c, bv(a, ins.ty.w), bv(b, ins.ty.w)))
                    else:
                        env[ins.dst] = a if self.branch(c) else b
                elif op == 'phi':
                    # phis read the values at block entry
                    if phis is None:
                        phis = {}
                        for q in blk:
                            if q.op != 'phi':
                                break
                            for v, b in q.a:
                                if b == prev:
                                    phis[q.dst] = val(v, q.ty)
                    env[ins.dst] = phis[ins.dst]
                elif op == 'switch':
                    v, dflt, cases = ins.a
                    v = val(v, ins.ty)
                    if v is UNDEF:
                        raise UBFound('switch on an uninitialised value')
                    prev, nxt = lab, dflt
                    if type(v) is int:
                        for cvv, l in cases:
                            if cvv == v:
                                nxt = l
                                break
                    else:
                        for cvv, l in cases:
                            if self.branch(v == cvv):
                                nxt = l
                                break
                    lab = nxt
                    break
                elif op == 'unreachable':
                    raise UBFound('unreachable code reached in ' + f.name)
                elif op == 'freeze':
                    env[ins.dst] = val(ins.a, ins.ty)
                else:
                    raise Unproved('unsupported instruction: ' + ins.line)
            if self.steps > self.MAXSTEPS:
                raise Unproved('step limit (non-terminating or too large)')

    def tofz(self, a):
        if isinstance(a, FZ):
            return a
        a = self.chkfp(a)
        if not a.isconst():
            raise Unproved('mixed floating-point models')
        return FZ(zq(P.cval(a.p)), a.ty, abs(P.cval(a.p)))

    def fz(self, o, a, b):
        a, b = self.tofz(a), self.tofz(b)
        u = zq(Fraction(1, 2 ** {'d': 53, 'f': 24, 'x': 64}[a.ty]))
        eta = zq(Fraction(1, 2 ** (150 if a.ty == 'f' else 1075)))
        s = 1
        if o in ('fmul', 'fdiv'):
            for q in (0, 1):
                x = (a, b)[q]
                if z3.is_app(x.z) and x.z.decl().kind() == z3.Z3_OP_UMINUS:
                    x = FZ(x.z.arg(0), x.ty, x.M)
                    s = -s
                    a, b = (x, b) if q == 0 else (a, x)
        ka, kb = a.z.sexpr(), b.z.sexpr()
        if o == 'fadd':
            if kb < ka:
                a, b, ka, kb = b, a, kb, ka
            e, et = a.z + b.z, None
        elif o == 'fsub':
            if kb < ka:      # fl(a-b) = -fl(b-a)
                a, b, ka, kb, s = b, a, kb, ka, -s
            e, et = a.z - b.z, None
        elif o == 'fmul':
            if kb < ka:
                a, b, ka, kb = b, a, kb, ka
            e, et = a.z * b.z, eta
        elif o == 'fdiv':
            if z3.is_rational_value(b.z) and b.z.numerator_as_long() != 0:
                e, et = a.z / b.z, eta
            else:
                raise Unproved('division in the NRA model')
        M = (a.M + b.M if et is None else a.M * b.M if o == 'fmul' else a.M / abs(b.z.as_fraction())) * (1 + Fraction(1, 2 ** 20)) + Fraction(1, 2 ** 149)
        if M >= 2 ** (127 if a.ty == 'f' else 1023):
            raise Unproved('the result of %s may overflow' % o)
        key = (o, ka, kb)
        r = self.fzmemo.get(key)
        if r is None:
            r = z3.Real('fl%d' % len(self.fzmemo))
            self.fzmemo[key] = r
            lo, hi = e * (1 - u), e * (1 + u)
            if et is None:
                self.assume(z3.Or(z3.And(e >= 0, r >= lo, r <= hi), z3.And(e < 0, r <= lo, r >= hi)))
            else:
                self.assume(z3.Or(z3.And(e >= 0, r >= lo - et, r <= hi + et), z3.And(e < 0, r <= lo + et, r >= hi - et)))
        return FZ(r if s == 1 else -r, a.ty, M)

    def fzround(self, a, ty):
        """Conversion to a narrower type."""
        u = zq(Fraction(1, 2 ** {'d': 53, 'f': 24}[ty]))
        et = zq(Fraction(1, 2 ** {'d': 1075, 'f': 150}[ty]))
        if a.M >= 2 ** (127 if ty == 'f' else 1023):
            raise Unproved('the conversion may overflow')
        z, s = a.z, 1
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_UMINUS:
            z, s = z.arg(0), -1
        key = ('trunc' + ty, z.sexpr(), '')
        r = self.fzmemo.get(key)
        if r is None:
            r = z3.Real('fl%d' % len(self.fzmemo))
            self.fzmemo[key] = r
            lo, hi = z * (1 - u), z * (1 + u)
            self.assume(z3.Or(z3.And(z >= 0, r >= lo - et, r <= hi + et), z3.And(z < 0, r <= lo + et, r >= hi - et)))
        return FZ(r if s == 1 else -r, ty, a.M * (1 + Fraction(1, 2 ** 20)) + Fraction(1, 2 ** 149))

    def fb(self, o, a, b):
        if isinstance(a, FZ) or isinstance(b, FZ):
            return self.fz(o, a, b)
        a, b = self.chkfp(a), self.chkfp(b)
        if o == 'fadd':
            return self.fadd(a, b)
        if o == 'fsub':
            return self.fadd(a, b, True)
        if o == 'fmul':
            return self.fmul(a, b)
        if o == 'fdiv':
            return self.fdiv(a, b)
        raise Unproved(o)

    def gep(self, ins, val):
        base, idx = ins.a
        p = val(base, None)
        if p is UNDEF:
            raise UBFound('address computed from an uninitialised pointer')
        if isinstance(p, Bits):
            p = p.v
        if isinstance(p, Fn):
            raise Unproved('gep on function')
        off = p.off
        t = ins.ty
        mod = self.mod
        first = True
        for w, v in idx:
            if not first and t.k == 'struct':
                d = mod.layout(t)[0][v]
                t = t.el[v]
                off = off + d if type(off) is int else off + z3.BitVecVal(d, 64)
                continue
            if first:
                s = mod.size(t)
                first = False
            else:
                t = t.el
                s = mod.size(t)
            x = val(v, None) if not type(v) is int else v
            if x is UNDEF:
                raise UBFound('address computed from an uninitialised index')
            if type(x) is int:
                d = sgn(x, w) * s
                off = off + d if type(off) is int else off + z3.BitVecVal(d & (2 ** 64 - 1), 64)
            else:
                e = tobv(x, w)
                if w < 64:
                    e = z3.SignExt(64 - w, e)
                off = bv(off & (2 ** 64 - 1) if type(off) is int else off, 64) + e * s
        if type(off) is not int:
            off = norm(off)
            if type(off) is int:
                off = sgn(off, 64)
        if p.o is None and off != p.off:
            raise UBFound('arithmetic on a null pointer')
        return Ptr(p.o, off)

    def binop(self, ins, a, b):
        op, flags = ins.x
        w = ins.ty.w
        if a is UNDEF or b is UNDEF:
            raise UBFound('arithmetic on an uninitialised value')
        if isinstance(a, Bits) or isinstance(b, Bits):
            pa, pb = (isinstance(x, Bits) and isinstance(x.v, Ptr) for x in (a, b))
            if w == 64 and op == 'sub' and pa and pb and a.v.o is b.v.o:        # both addresses share their base
                if type(a.v.off) is int and type(b.v.off) is int:
                    return (a.v.off - b.v.off) & ((1 << 64) - 1)
                return norm(tobv(a.v.off, 64) - tobv(b.v.off, 64))
            if w == 64 and (op == 'add' and pa != pb or op == 'sub' and pa and not pb) and not isinstance(b if pa else a, Bits):
                p, d = (a.v, b) if pa else (b.v, a)
                d = sgn(d, 64) if type(d) is int else d
                return Bits(self.padd(p, d if op == 'add' else -d), 8)
            raise Unproved('integer arithmetic on the bits of a floating-point value or pointer')
        mask = (1 << w) - 1
        if type(a) is int and type(b) is int:
            sa, sb = sgn(a, w), sgn(b, w)
            if op == 'add':
                r, rs = a + b, sa + sb
            elif op == 'sub':
                r, rs = a - b, sa - sb
            elif op == 'mul':
                r, rs = a * b, sa * sb
            elif op in ('sdiv', 'srem', 'udiv', 'urem'):
                if b == 0:
                    raise UBFound('division by zero')
                if op == 'sdiv':
                    q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                    if q > mask >> 1:
                        raise UBFound('signed division overflow')
                    return q & mask
                if op == 'srem':
                    return (abs(sa) % abs(sb) * (-1 if sa < 0 else 1)) & mask
                return (a // b if op == 'udiv' else a % b) & mask
            elif op == 'and':
                return a & b
            elif op == 'or':
                return a | b
            elif op == 'xor':
                return a ^ b
            elif op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    raise UBFound('shift amount out of range')
                if op == 'shl':
                    rs, r = sa << b, a << b
                elif op == 'lshr':
                    return a >> b
                else:
                    return (sa >> b) & mask
            else:
                raise Unproved(op)
            if 'nsw' in flags and not -(1 << (w - 1)) <= rs < 1 << (w - 1):
                raise UBFound('signed integer overflow in %s' % op)
            if 'nuw' in flags and not 0 <= r <= mask:
                raise UBFound('unsigned wrap flagged nuw in %s' % op)
            self.stats['ground'] += 1
            return r & mask
        if w == 1:
            a, b = mkbool(a), mkbool(b)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if r is None:
                raise Unproved('i1 ' + op)
            return norm1(r(a, b))
        x, y = tobv(a, w), tobv(b, w)
        if op in ('add', 'sub', 'mul'):
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            ia, ib = self.interval(a, w), self.interval(b, w)
            if ia and ib:
                if op == 'mul':
                    q = [i * j for i in ia for j in ib]
                    lo, hi = min(q), max(q)
                    if a is b or (type(a) is not int and type(b) is not int and a.eq(b)):
                        lo = max(lo, 0)
                else:
                    lo, hi = (ia[0] + ib[0], ia[1] + ib[1]) if op == 'add' else (ia[0] - ib[1], ia[1] - ib[0])
                if -(1 << (w - 1)) <= lo and hi < 1 << (w - 1):
                    if 'nsw' in flags:
                        self.obs.append(Ob('no undefined behaviour: signed overflow in %s' % op, True, 'interval arithmetic', kind='ub'))
                    n = norm(r)
                    if type(n) is not int:
                        self.iv[n.get_id()] = (n, lo, hi)
                    return n
            if 'nsw' in flags:
                e = w if op == 'mul' else 1
                xx, yy = z3.SignExt(e, x), z3.SignExt(e, y)
                rr = xx + yy if op == 'add' else xx - yy if op == 'sub' else xx * yy
                self.ub('signed overflow in %s' % op, rr == z3.SignExt(e, r))
            return norm(r)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            self.ub('division by zero', y != 0)
            if op == 'sdiv':
                self.ub('signed division overflow', z3.Or(x != (1 << (w - 1)), y != mask))
            return norm({'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y), 'udiv': lambda: z3.UDiv(x, y),
                         'urem': lambda: z3.URem(x, y)}[op]())
        if op in ('shl', 'lshr', 'ashr'):
            self.ub('shift amount in range', z3.ULT(y, w))
            r = x << y if op == 'shl' else z3.LShR(x, y) if op == 'lshr' else x >> y
            if op == 'shl' and 'nsw' in flags:
                self.ub('signed shift overflow', (r >> y) == x)
            return norm(r)
        return norm({'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]())

    def interval(self, v, w):
        """Signed range of a machine integer derived from the ranges of the arguments."""
        if type(v) is int:
            x = sgn(v, w)
            return (x, x)
        if isbool(v):
            return None
        t = self.iv.get(v.get_id())
        return t and (t[1], t[2])

    def icmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            raise UBFound('comparison of an uninitialised value')
        if ty.k == 'ptr':
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                return int(e == (pred == 'eq'))
            if pred in ('eq', 'ne'):
                if a.o is not b.o:
                    return int(pred == 'ne')
            elif a.o is not b.o:
                raise Unproved('ordering of pointers to different objects')
            a, b = a.off, b.off
            if type(a) is int and type(b) is int:
                a &= 2 ** 64 - 1
                b &= 2 ** 64 - 1
            w = 64
        else:
            w = ty.w
        if isinstance(a, Bits) and isinstance(b, Bits) and isinstance(a.v, Ptr) and isinstance(b.v, Ptr) and (a.v.o is b.v.o):
            return self.icmp(pred, T('ptr'), a.v, b.v)
        if isinstance(a, Bits) or isinstance(b, Bits):
            raise Unproved('comparison of the bits of a floating-point value or pointer')
        if type(a) is int and type(b) is int:
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                pred if pred in ('eq', 'ne') else pred[1:]])
        if w == 1:
            a, b = mkbool(a), mkbool(b)
            if pred == 'eq':
                return norm1(a == b)
            if pred == 'ne':
                return norm1(z3.Xor(a, b))
            raise Unproved('i1 compare')
        x, y = tobv(a, w), tobv(b, w)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pred]
        return norm1(f())

    def cast(self, op, t1, t2, a):
        if a is UNDEF:
            if op == 'bitcast':
                return a
            raise UBFound('conversion of an uninitialised value')
        if op in ('sext', 'zext', 'trunc'):
            if isinstance(a, Bits):
                if op == 'trunc' and isinstance(a.v, tuple) is False and t2.w == 8 * a.n:
                    return a
                raise Unproved('conversion of floating-point bits')
            w1, w2 = t1.w, t2.w
            if type(a) is int:
                return (sgn(a, w1) & ((1 << w2) - 1)) if op == 'sext' else a & ((1 << w2) - 1)
            if op == 'trunc':
                if isbool(a):
                    return a
                if w2 == 1:
                    return norm1(z3.Extract(0, 0, a) == 1)
                return norm(z3.Extract(w2 - 1, 0, a))
            if isbool(a):
                one = (1 << w2) - 1 if op == 'sext' else 1
                return norm(z3.If(a, z3.BitVecVal(one, w2), z3.BitVecVal(0, w2)))
            r = norm(z3.SignExt(w2 - w1, a) if op == 'sext' else z3.ZeroExt(w2 - w1, a))
            i = self.interval(a, w1)
            if i and type(r) is not int and (op == 'sext' or i[0] >= 0):
                self.iv[r.get_id()] = (r,) + i
            return r
        if op in ('sitofp', 'uitofp'):
            ty = FT[t2.k]
            v = self.concretise(a, t1.w)
            v = sgn(v, t1.w) if op == 'sitofp' else v
            return fconst(rnd(Fraction(v), ty), ty)
        if op in ('fptosi', 'fptoui'):
            a = self.chkfp(a)
            if not a.isconst():
                raise Unproved('conversion of a symbolic floating-point value to integer')
            c = P.cval(a.p)
            v = int(c)
            lo, hi = (-(1 << (t2.w - 1)), (1 << (t2.w - 1)) - 1) if op == 'fptosi' else (0, (1 << t2.w) - 1)
            if not lo <= v <= hi:
                raise UBFound('floating-point to integer conversion out of range')
            return v & ((1 << t2.w) - 1)
        if op == 'fpext':
            if isinstance(a, Special) and not isinstance(a, Opaque):
                return a
            if isinstance(a, FZ):
                return FZ(a.z, FT[t2.k], a.M)
            a = self.chkfp(a)
            return FP(a.p, a.E, a.M, FT[t2.k])
        if op == 'fptrunc':
            if isinstance(a, Special) and not isinstance(a, Opaque):
                return a
            ty = FT[t2.k]
            if isinstance(a, FZ):
                return self.fzround(a, ty)
            a = self.chkfp(a)
            if a.isconst():
                return fconst(rnd(P.cval(a.p), ty), ty)
            E = up(a.E + up(U[ty] * a.M) + ETA[ty])
            if a.E == 0:
                x = self.exact2(a.p, ty)
                E = 0.0 if x else ETA[ty] if x is None else E
            return self.mk(a.p, E, up(a.M * (1 + 2 * U[ty])), ty)
        if op == 'bitcast':
            if t1.k in ('double', 'float') and t2.k == 'i':
                return Bits(a, self.mod.size(t1))
            if t2.k in ('double', 'float') and t1.k == 'i':
                if isinstance(a, Bits) and (isinstance(a.v, FP) or isinstance(a.v, Opaque) and a.v.oty == t2.k[0]):
                    return a.v
                if type(a) is int:
                    return int_to_fp(a, 'd' if t2.k == 'double' else 'f')
            if t1.k == t2.k:
                return a
            raise Unproved('bitcast')
        if op == 'ptrtoint':
            return Bits(a, 8)
        if op == 'inttoptr':
            if isinstance(a, Bits):
                return a.v
            if a == 0:
                return NULL
        raise Unproved('cast ' + op)

    # ---- calls ----------------------------------------------------------
    def docall(self, callee, args, val, env, ins):
        if callee[0] == 'r':
            f = env[callee[1]]
            if not isinstance(f, Fn):
                raise Unproved('indirect call')
            name = f.name
        else:
            name = callee[1]
        if name.startswith('llvm.'):
            return self.intrinsic(name, args, val, env)
        vals = []
        for ty, v, at in args:
            x = val(v, ty)
            if at and at[0] == 'byval':
                o = self.new(self.mod.size(at[1]), 'stack', 'byval')
                p = Ptr(o, 0)
                self.memcpy(p, x, o.size)
                x = p
            vals.append(x)
        return self.call(name, vals)

    def intrinsic(self, name, args, val, env):
        n = name.split('.')
        k = n[1]
        v = [val(a[1], a[0]) for a in args]
        if k in ('memcpy', 'memmove'):
            return self.memcpy(v[0], v[1], v[2])
        if k == 'memset':
            return self.memset(v[0], v[1], v[2])
        if k == 'threadlocal':
            return v[0]
        if k in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing'):
            return None
        if k == 'va_start':
            self.notes[id(v[0].o)] = list(env.get('...', []))
            return None
        if k == 'va_copy':
            self.notes[id(v[0].o)] = list(self.notes.get(id(v[1].o), []))
            return None
        if k == 'va_end':
            return None
        if k in ('fabs', 'minnum', 'maxnum', 'minimum', 'maximum', 'copysign'):
            return self.mathfn(k, v)
        if k in ('fma', 'fmuladd'):
            if any(isinstance(x, FZ) for x in v):
                if k == 'fma':
                    raise Unproved('fused multiply-add in the NRA model')
                return self.fz('fadd', self.fz('fmul', v[0], v[1]), v[2])
            a = [self.chkfp(x) for x in v]
            if k == 'fma':
                return self.ffma(*a)
            r = self.fadd(self.fmul(a[0], a[1]), a[2])
            return r
        if k == 'is' or k == 'expect':
            return v[0] if k == 'expect' else 0
        if k == 'trap':
            raise PathEnd('abort')
        if k == 'powi' or k == 'pow':
            a = self.chkfp(v[0])
            e = v[1]
            if k == 'powi' and type(e) is int:
                e = sgn(e, 32)
                if e >= 0:
                    r = fconst(1, a.ty)
                    for _ in range(e):
                        r = self.fmul(r, a)
                    return r
        if '.with.overflow' in name:
            w = args[0][0].w
            if any(x is UNDEF for x in v):
                raise UBFound('arithmetic on an uninitialised value')
            o = k[1:]
            if all(type(x) is int for x in v):
                x, y = (sgn(v[0], w), sgn(v[1], w)) if k[0] == 's' else (v[0], v[1])
                r = x + y if o == 'add' else x - y if o == 'sub' else x * y
                m = r & ((1 << w) - 1)
                return [m, int((sgn(m, w) if k[0] == 's' else m) != r)]
            ext = z3.SignExt if k[0] == 's' else z3.ZeroExt
            x, y = ext(w, tobv(v[0], w)), ext(w, tobv(v[1], w))
            r = x + y if o == 'add' else x - y if o == 'sub' else x * y
            m = z3.Extract(w - 1, 0, r)
            return [norm(m), norm1(ext(w, m) != r)]
        if k in ('smax', 'smin', 'umax', 'umin', 'abs'):
            w = args[0][0].w
            if all(type(x) is int for x in v):
                if k == 'abs':
                    return abs(sgn(v[0], w)) & ((1 << w) - 1)
                f = max if k.endswith('max') else min
                if k[0] == 's':
                    return f(sgn(v[0], w), sgn(v[1], w)) & ((1 << w) - 1)
                return f(v[0], v[1])
            x = tobv(v[0], w)
            if k == 'abs':
                return norm(z3.If(x < 0, -x, x))
            y = tobv(v[1], w)
            lt = x < y if k[0] == 's' else z3.ULT(x, y)
            return norm(z3.If(lt, y, x) if k.endswith('max') else z3.If(lt, x, y))
        raise Unproved('intrinsic ' + name)

    def mathfn(self, k, v):
        """Exact floating-point functions."""
        if any(isinstance(x, FZ) for x in v):
            v = [self.tofz(x) for x in v]
            z, ty, M = [x.z for x in v], v[0].ty, max(x.M for x in v)
            if k in ('fabs', 'copysign'):
                mag = z[0] if self.branch(z[0] >= 0) else -z[0]
            if k == 'fabs':
                return FZ(mag, ty, M)
            if k == 'copysign':         # the sign of a zero is not modelled: either
                self.nfree += 1
                neg = z3.Or(z[1] < 0, z3.And(z[1] == 0, z3.Bool('zsign%d' % self.nfree)))
                return FZ(-mag if self.branch(neg) else mag, ty, v[0].M)
            return FZ(z[self.branch(z[0] < z[1]) ^ k.startswith('min')], ty, M)
        a = self.chkfp(v[0])

        def neg(x):
            return FP(P.neg(x.p), x.E, x.M, x.ty)

        def mag(x):
            if x.isconst():
                return fconst(abs(P.cval(x.p)), x.ty)
            return x if self.fcmp('oge', x, fconst(0, x.ty)) else neg(x)
        if k == 'fabs':
            return mag(a)
        b = self.chkfp(v[1])
        zero = fconst(0, a.ty)
        if k == 'copysign':
            if self.fcmp('ogt', b, zero):
                return mag(a)
            if self.fcmp('olt', b, zero):
                return neg(mag(a))
            self.nfree += 1             # the sign of a zero is not modelled: either
            return neg(mag(a)) if self.branch(z3.Bool('zsign%d' % self.nfree)) else mag(a)
        c = self.fcmp('olt', a, b)
        return (a if c else b) if k.startswith('min') else (b if c else a)

    def external(self, name, args):
        if name in ('abort', '_ZSt9terminatev', '_exit', 'exit', '__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_'):
            raise PathEnd('abort')
        if name in ('fprintf', 'vfprintf', 'printf', 'puts', 'fputs', 'fputc', 'fwrite', 'putchar', 'fflush', 'putc',
                    'vprintf', 'perror', 'write', 'dprintf', 'vdprintf', 'fputs_unlocked', 'fwrite_unlocked', 'fputc_unlocked', 'fflush_unlocked'):
            if any(a is UNDEF for a in args):
                raise UBFound('uninitialised argument to ' + name)
            stream = None
            args = list(args)
            for a in list(args):
                if isinstance(a, Ptr) and a.o is not None and a.o.kind == 'extern':
                    stream = a.o.name
                if isinstance(a, Ptr) and a.o is not None:
                    args += self.notes.get(id(a.o), [])
            if name in ('printf', 'puts', 'putchar', 'vprintf'):
                stream = 'stdout'
            if name in ('perror',) or name in ('write', 'dprintf', 'vdprintf') and args[0] == 2:
                stream = 'stderr'
            self.events.append((name, stream, args))
            return 0
        if name in ('snprintf', 'vsnprintf', 'sprintf', 'vsprintf'):
            if any(a is UNDEF for a in args):
                raise UBFound('uninitialised argument to ' + name)
            sized = name.endswith('snprintf')
            rest = list(args[2:] if sized else args[1:])
            extra = list(rest)
            for a in rest:
                if isinstance(a, Ptr) and a.o is not None:
                    extra += self.notes.get(id(a.o), [])
            lo, hi = self.rendered(rest[0], [a for a in extra[1:] if a is not rest[1]] if name[0] == 'v' else extra[1:])
            n = args[1] if sized else None
            if sized and type(n) is not int:
                raise Unproved('snprintf into a buffer of symbolic size')
            if n == 0:
                return hi
            o, off = self.access(args[0], n if sized and n < 1 << 16 else 1, 'write')
            self.clear(o, off, 1)
            o.cells[off] = (1, 0)
            if sized and n <= lo:
                return hi           # cut short for every argument: what is lost is not reported
            self.notes.setdefault(id(o), []).extend(extra)
            return hi
        if OSTREAM.match(name):                         # formatted output to a standard stream object
            if any(a is UNDEF for a in args):
                raise UBFound('uninitialised argument to an output stream')
            os = args[0]
            stream = {'@_ZSt4cerr': 'stderr', '@_ZSt4clog': 'stderr', '@_ZSt4cout': 'stdout'}.get(os.o.name) if isinstance(os, Ptr) and os.o is not None else None
            if stream is None:
                raise Unproved('output to an unknown stream')
            args = list(args)
            for a in list(args):
                if isinstance(a, Ptr) and a.o is not None:
                    args += self.notes.get(id(a.o), [])
            self.events.append(('operator<<', stream, args))
            return os
        if name in ('flockfile', 'funlockfile'):
            return None
        if name == 'fileno':
            return 2
        if name in ('strlen',):
            return self.strlen(args[0])
        if name.startswith('env_'):
            if any(a is UNDEF for a in args):
                raise UBFound('uninitialised value passed to the functor')
            self.trace.append((name, tuple(args)))
            h = self.handles.get(name)
            return h(self, args) if h else None
        if name in ('_Znwm', '_Znam', 'malloc'):
            n = self.concretise(args[0], 64)
            o = self.new(n, 'heap', 'heap')
            o.alloc = name
            return Ptr(o, 0)
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            p = args[0]
            if p.o is None:
                return None
            if not p.o.live or p.o.kind != 'heap' or p.off != 0:
                raise UBFound('invalid deallocation')
            if p.o.alloc != {'_ZdlP': '_Znwm', '_ZdaP': '_Znam'}.get(name[:5], 'malloc'):
                raise UBFound('deallocation does not match the allocation')
            p.o.live = False
            self.events.append(('free', p.o, args))
            return None
        if name in ('__cxa_guard_acquire',):
            o, off = self.access(args[0], 8, 'read')
            c = o.cells.get(off)
            return 0 if c and c[1] == 1 else 1
        if name in ('__cxa_guard_release',):
            o, off = self.access(args[0], 8, 'read')
            self.clear(o, off, 1)
            o.cells[off] = (1, 1)
            o.writes += 1
            return None
        m = {'fabs': 'fabs', 'fmin': 'minnum', 'fmax': 'maxnum', 'copysign': 'copysign', 'fma': 'fma'}.get(
            name[:-1] if name[-1:] in 'fl' and name[:-1] in ('fabs', 'fmin', 'fmax', 'copysign', 'fma') else name)
        if m == 'fma' and not any(isinstance(x, FZ) for x in args):
            return self.ffma(*[self.chkfp(x) for x in args])
        if m and m != 'fma':
            return self.mathfn(m, args)
        if name in ('pow', 'powf'):
            a, e = self.chkfp(args[0]), self.chkfp(args[1])
            if e.isconst() and P.cval(e.p).denominator == 1 and 0 <= P.cval(e.p) <= 64:
                n = int(P.cval(e.p))
                p = P.power(a.p, n)
                M = a.M ** n
                # libm pow: assumed accurate to 2 ulp; the argument error is amplified
                E = up(n * up(a.M ** max(0, n - 1)) * a.E * (1 + 1e-9) + 4 * U[a.ty] * M + ETA[a.ty])
                return self.mk(p, E, up(M * (1 + 8 * U[a.ty])), a.ty)
        raise Unproved('call of external function ' + name)


OSTREAM = re.compile(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_(PK?[cah]|[cah])$|_ZNSolsE([bstijlmxyfde]|PKv|PFRSoS_E)$|_ZNSo(3putEc|5flushEv|5writeEPKcl)$'
                     r'|_ZSt(4endl|5flush|4ends)IcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_$|_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostream')


class Special:
    """inf / nan constants."""
    def __init__(s, v):
        s.v = v


class Opaque(Special):
    """A floating-point value of any bit pattern (nan, infinities, both zeros, subnormals, huge): it can be moved and copied,
    never computed with - no arithmetic, comparison or conversion of it is provable."""
    def __init__(s, name, ty):
        s.v = name
        s.oty = ty

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unproved('computation with arbitrary bits: ' + s.__dict__.get('v', '?'))

    def __repr__(s):
        return s.v


def norm1(e):
    e = z3.simplify(e, elim_sign_ext=False)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def mkbool(v):
    if type(v) is int:
        return z3.BoolVal(bool(v))
    if isbool(v):
        return v
    return v == 1


def byte_of(v, j, sz):
    if type(v) is int:
        return (v >> (8 * j)) & 255
    if isinstance(v, z3.BitVecRef):
        return norm(z3.Extract(8 * j + 7, 8 * j, v))
    if isinstance(v, FP) and v.isconst() and v.ty != 'x':
        return (fp_to_int(v) >> (8 * j)) & 255
    if isinstance(v, tuple):
        return v
    return ('b', v, j)


def fp_to_int(v):
    import struct
    c = -0.0 if v.nz else float(P.cval(v.p))
    return struct.unpack('<Q', struct.pack('<d', c))[0] if v.ty == 'd' else struct.unpack('<I', struct.pack('<f', c))[0]


def int_to_fp(v, ty):
    import struct
    if ty == 'x':
        raise Unproved('bytes read as an extended-precision value')
    x = struct.unpack('<d', struct.pack('<Q', v))[0] if ty == 'd' else struct.unpack('<f', struct.pack('<I', v))[0]
    if x != x or x in (math.inf, -math.inf):
        return Special(repr(x))
    r = fconst(Fraction(x), ty)
    if x == 0 and math.copysign(1, x) < 0:
        r = FP(r.p, r.E, r.M, r.ty)
        r.nz = True
    return r


def elty(t, idx):
    for i in idx:
        t = t.el[i] if t.k == 'struct' else t.el
    return t


def insert(v, x, idx):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = x
    else:
        v[idx[0]] = insert(v[idx[0]], x, idx[1:])
    return v


def next1(x):
    return math.nextafter(x, math.inf)


def prev1(x):
    return math.nextafter(x, -math.inf)


def nextf(x, ty):
    """Smallest machine value > x (x rational)."""
    if ty == 'd':
        f = float(x)
        return f if Fraction(f) > x else math.nextafter(f, math.inf)
    f = np.float32(float(x))
    return float(f) if Fraction(float(f)) > x else float(np.nextafter(f, np.float32(np.inf)))


def prevf(x, ty):
    if ty == 'd':
        f = float(x)
        return f if Fraction(f) < x else math.nextafter(f, -math.inf)
    f = np.float32(float(x))
    return float(f) if Fraction(float(f)) < x else float(np.nextafter(f, np.float32(-np.inf)))
