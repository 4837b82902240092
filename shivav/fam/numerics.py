"""C08-C17, C21, C24, C25: nodes, quadrature, bases, parent elements, transforms."""
import itertools
import math
from fractions import Fraction
import z3
from ..contract import Contract, Int, FVal, Buf, In, Out, InOut, prod_s, sum_s
from ..unit import Unit
from ..sym import Exec, Atoms, fconst, FP, S, Ptr, U, Unproved, up, tos
from ..ir import DOUBLE, FLOAT
from .. import poly as P
from .. import literals
from .carray import mkunits, sg, raw

CTY = {'d': 'double', 'f': 'float'}
FT = {'d': DOUBLE, 'f': FLOAT}
ES = {'d': 8, 'f': 4}
SP = {'E': 'EqualSpacing', 'L': 'GaussLegendreSpacing', 'B': 'GaussLobattoSpacing'}
QD = {'L': 'QuadratureGaussLegendre', 'B': 'QuadratureGaussLobatto'}
TINY = 1e-40


def fup(x):
    return P.fup(Fraction(x))


# ---------------------------------------------------------------- C08
PRE8 = '#include "shiva/functions/spacing/Spacing.hpp"\n#include "shiva/functions/quadrature/Quadrature.hpp"\nusing namespace shiva;\n'


def pmulx(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def legendre(n):
    """Coefficients (low to high) of the Legendre polynomial, exactly."""
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [Fraction(0)] + [Fraction(2 * k + 1, k + 1) * x for x in b]
        for i, x in enumerate(a):
            c[i] -= Fraction(k, k + 1) * x
        a, b = b, c
    return b


def deriv(a):
    return [i * x for i, x in enumerate(a)][1:]


def peval(a, x):
    r = Fraction(0)
    for c in reversed(a):
        r = r * x + c
    return r


def node_spec(c, sp, N, xs, tol):
    """xs (exact rationals) are the true nodes to within tol."""
    tol = Fraction(tol)
    for k in range(N - 1):
        c.prove('point %d < point %d' % (k, k + 1), xs[k] + 2 * tol < xs[k + 1])
    for k in range(N):
        c.prove('point %d inside [-1,1]' % k, -1 <= xs[k] <= 1)
        c.prove('points %d and %d symmetric' % (k, N - 1 - k), abs(xs[k] + xs[N - 1 - k]) <= tol)
    if sp == 'E':
        for k in range(N):
            c.prove('point %d is equally spaced' % k, abs(xs[k] - (Fraction(2 * k, N - 1) - 1)) <= tol)
        return
    if sp == 'L':
        q = legendre(N)
        inner = range(N)
    else:
        q = deriv(legendre(N - 1))
        inner = range(1, N - 1)
        c.prove('first point is -1', abs(xs[0] + 1) <= tol)
        c.prove('last point is 1', abs(xs[N - 1] - 1) <= tol)
    for k in inner:
        # a sign change of the defining polynomial: a root lies within the tolerance of the point
        c.prove('point %d is a root of the defining polynomial' % k, peval(q, xs[k] - tol) * peval(q, xs[k] + tol) <= 0)


def fv(v):
    """Exact value of a constant machine number."""
    if isinstance(v, FP) and v.isconst():
        return P.cval(v.p)
    return None


TOL = {'d': Fraction(1, 10 ** 13), 'f': Fraction(1, 10 ** 6)}


def nodes_contract(sp, N, ty):
    fn = 'c08_nodes_%s%d%s' % (sp, N, ty)
    T = '%s< %s, %d >' % (SP[sp], CTY[ty], N)
    cpp = 'SX void %s( %s * out ) { %s }' % (fn, CTY[ty], ' '.join('out[%d] = %s::template coordinate< %d >();' % (k, T, k) for k in range(N)))

    def ens(c):
        xs = [fv(v) for v in c.o['out']]
        c.prove('every point is a number', all(x is not None for x in xs))
        if all(x is not None for x in xs):
            node_spec(c, sp, N, xs, TOL[ty])
    return Contract(fn, cpp, fn, [Out('out', ty, N)], ens, title='%s::coordinate< k >()' % T, targets='%s::coordinate (compile time)' % SP[sp], nsamples=1)


def rt_nodes_contract(sp, N, ty):
    fn = 'c08_rt_%s%d%s' % (sp, N, ty)
    T = '%s< %s, %d >' % (SP[sp], CTY[ty], N)
    cpp = 'SX %s %s( int k, %s * ct ) { %s return %s::coordinate( k ); }' % (
        CTY[ty], fn, CTY[ty], ' '.join('ct[%d] = %s::template coordinate< %d >();' % (k, T, k) for k in range(N)), T)

    def ens(c):
        x = fv(c.ret)
        k = c.a['k']
        w = fv(c.o['ct'][k])
        c.prove('the point is a number', x is not None and w is not None)
        if x is not None and w is not None:
            c.prove('run-time point %d agrees with the compile-time point (%s, %s)' % (k, float(x), float(w)), abs(x - w) <= 8 * Fraction(U[ty]))
            c.prove('inside [-1,1]', -1 <= x <= 1)
    return Contract(fn, cpp, fn, [Int('k', 32, True, 0, N - 1, enum=True), Out('ct', ty, N)], ens, ret=ty, title='%s::coordinate( k )' % T,
                    targets='%s::coordinate (run time)' % SP[sp], nsamples=2 * N)


def rt_all_contract(sp, N, ty):
    """The run-time points themselves are the nodes."""
    fn = 'c08_rtall_%s%d%s' % (sp, N, ty)
    T = '%s< %s, %d >' % (SP[sp], CTY[ty], N)
    cpp = 'SX void %s( %s * out ) { for ( int k = 0; k < %d; ++k ) out[k] = %s::coordinate( k ); env_i( %s::numPoints ); }' % (fn, CTY[ty], N, T, T)

    def ens(c):
        xs = [fv(v) for v in c.o['out']]
        c.prove('every point is a number', all(x is not None for x in xs))
        if all(x is not None for x in xs):
            node_spec(c, sp, N, xs, TOL[ty])
        c.prove('number of points', [sg(a[0]) for _, a in c.trace] == [N])
    return Contract(fn, cpp, fn, [Out('out', ty, N)], ens, title='%s::coordinate( k ) for every k' % T, targets='%s::coordinate (run time)' % SP[sp], nsamples=1)


def big_contract(N, ty):
    """Selected points of a spacing with very many points."""
    fn = 'c08_big_E%d%s' % (N, ty)
    T = 'EqualSpacing< %s, %d >' % (CTY[ty], N)
    ks = sorted({k for b in (0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, N // 3, N // 2, 2 * N // 3, N - 1) for k in (b - 1, b, b + 1) if 0 <= k < N})
    n = len(ks)
    cpp = 'SX void %s( %s * a, %s * b ) { int const ks[] = { %s }; for ( int i = 0; i < %d; ++i ) a[i] = %s::coordinate( ks[i] ); %s env_i( %s::numPoints ); }' % (
        fn, CTY[ty], CTY[ty], ', '.join(map(str, ks)), n, T, ' '.join('b[%d] = %s::template coordinate< %d >();' % (i, T, k) for i, k in enumerate(ks)), T)

    def ens(c):
        for w in 'ab':
            xs = [fv(v) for v in c.o[w]]
            c.prove('every point is a number', all(x is not None for x in xs))
            if not all(x is not None for x in xs):
                continue
            for i, k in enumerate(ks):
                c.prove('point %d is equally spaced (%s)' % (k, 'run time' if w == 'a' else 'compile time'), abs(xs[i] - (Fraction(2 * k, N - 1) - 1)) <= TOL[ty])
                c.prove('point %d inside [-1,1]' % k, -1 <= xs[i] <= 1)
                if i:
                    c.prove('point %d < point %d' % (ks[i - 1], k), xs[i - 1] < xs[i])
        c.prove('number of points', [sg(a[0]) for _, a in c.trace] == [N])
    return Contract(fn, cpp, fn, [Out('a', ty, n), Out('b', ty, n)], ens, title='%s::coordinate, selected points' % T, targets='EqualSpacing::coordinate', nsamples=1)


def spacings(tier):
    return [('E', n) for n in list(range(2, 22)) + [24, 25, 26, 32, 33, 40, 49, 50, 64, 65] + [v for v in literals.extra(22, 400) if v not in (24, 25, 26, 32, 33, 40, 49, 50, 64, 65)] + ([] if tier == 'quick' else list(range(66, 130, 7)) + [256, 257])] + [('L', n) for n in (2, 3, 4)] + [('B', n) for n in range(2, 10)]


def C08(tier):
    cons = []
    for sp, N in spacings(tier):
        for ty in 'df':
            cons += [nodes_contract(sp, N, ty), rt_nodes_contract(sp, N, ty), rt_all_contract(sp, N, ty)]
    for N in (127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 1 << 30):
        for ty in 'df':
            if ty == 'd' or N <= 100000:
                cons.append(big_contract(N, ty))
    return mkunits('c08', cons, 4, pre=PRE8)


# ---------------------------------------------------------------- C09
def weights_contract(q, N, ty, rt):
    fn = 'c09_w_%s%d%s%s' % (q, N, ty, 'r' if rt else 'c')
    T = '%s< %s, %d >' % (QD[q], CTY[ty], N)
    t = CTY[ty]
    if rt:
        body = 'for ( int k = 0; k < %d; ++k ) { w[k] = %s::weight( k ); x[k] = %s::coordinate( k ); } %s' % (
            N, T, T, ' '.join('ct[%d] = %s::template weight< %d >();' % (k, T, k) for k in range(N)))
    else:
        body = ' '.join('w[%d] = %s::template weight< %d >(); x[%d] = %s::template coordinate< %d >(); ct[%d] = w[%d];' % (k, T, k, k, T, k, k, k) for k in range(N))
    cpp = 'SX void %s( %s * w, %s * x, %s * ct ) { %s }' % (fn, t, t, t, body)

    def ens(c):
        w, x, ct = [[fv(v) for v in c.o[s]] for s in ('w', 'x', 'ct')]
        ok = all(v is not None for v in w + x + ct)
        c.prove('weights and points are numbers', ok)
        if not ok:
            return
        tol = TOL[ty]
        for k in range(N):
            c.prove('weight %d positive' % k, w[k] > 0)
            c.prove('weights %d and %d equal' % (k, N - 1 - k), abs(w[k] - w[N - 1 - k]) <= tol)
            c.prove('weight %d as at compile time' % k, abs(w[k] - ct[k]) <= 8 * Fraction(U[ty]))
        c.prove('weights sum to 2', abs(sum(w) - 2) <= tol)
        deg = 2 * N - 1 if q == 'L' else 2 * N - 3
        for d in range(deg + 1):
            m = Fraction(2, d + 1) if d % 2 == 0 else Fraction(0)
            s = sum(wk * xk ** d for wk, xk in zip(w, x))
            # exact for the monomials up to the degree, hence (linearity) for every polynomial up to it
            c.prove('integrates x^%d exactly (up to rounding)' % d, abs(s - m) <= 4 * tol)
    return Contract(fn, cpp, fn, [Out('w', ty, N), Out('x', ty, N), Out('ct', ty, N)], ens, title='%s weights (%s)' % (T, 'run time' if rt else 'compile time'),
                    targets='%s::weight' % QD[q], nsamples=1)


def rt_weight_contract(q, N, ty):
    fn = 'c09_rt_%s%d%s' % (q, N, ty)
    T = '%s< %s, %d >' % (QD[q], CTY[ty], N)
    cpp = 'SX %s %s( int k, %s * ct ) { %s return %s::weight( k ); }' % (
        CTY[ty], fn, CTY[ty], ' '.join('ct[%d] = %s::template weight< %d >();' % (k, T, k) for k in range(N)), T)

    def ens(c):
        x, w = fv(c.ret), fv(c.o['ct'][c.a['k']])
        c.prove('run-time weight agrees with the compile-time weight', x is not None and w is not None and abs(x - w) <= 8 * Fraction(U[ty]))
    return Contract(fn, cpp, fn, [Int('k', 32, True, 0, N - 1, enum=True), Out('ct', ty, N)], ens, ret=ty, title='%s::weight( k )' % T,
                    targets='%s::weight' % QD[q], nsamples=2 * N)


def C09(tier):
    cons = []
    for ty in 'df':
        for N in (2, 3, 4):
            cons += [weights_contract('L', N, ty, False), weights_contract('L', N, ty, True), rt_weight_contract('L', N, ty)]
        for N in range(2, 10):
            cons.append(weights_contract('B', N, ty, False))
            if N <= 5:
                cons += [weights_contract('B', N, ty, True), rt_weight_contract('B', N, ty)]
    return mkunits('c09', cons, 4, pre=PRE8)


# ---------------------------------------------------------------- one-dimensional bases
class Basis:
    def __init__(s, sp, n, ty='d'):
        s.sp, s.n, s.N, s.ty = sp, n, n + 1, ty
        s.name = '%s%d%s' % (sp, n, ty)
        s.cpp = 'functions::LagrangeBasis< %s, %d, %s >' % (CTY[ty], n, SP[sp])
        s.helper = 'nodes_of_' + s.name

    def helper_cpp(s):
        return 'extern "C" void %s( %s * out ) { %s }\n' % (s.helper, CTY[s.ty], ' '.join(
            'out[%d] = %s::template coordinate< %d >();' % (k, s.cpp, k) for k in range(s.N)))


PRE10 = '#include "shiva/functions/bases/LagrangeBasis.hpp"\n#include "shiva/functions/spacing/Spacing.hpp"\nusing namespace shiva;\n'


def helpers(bases):
    seen = {}
    for b in bases:
        seen[b.name] = b
    return ''.join(b.helper_cpp() for b in seen.values())


def nodes(mod, b):
    """The support points of the basis as the code under verification defines them."""
    cache = mod.__dict__.setdefault('node_cache', {})
    if b.name not in cache:
        cache[b.name] = eval_consts(mod, b.helper, b.N, b.ty)
    return cache[b.name]


def eval_consts(mod, fn, n, ty):
    cache = mod.__dict__.setdefault('const_cache', {})
    if fn not in cache:
        ex = Exec(mod, Atoms(), {}, [], [], dict(smt_queries=0, smt_time=0.0, ground=0))
        o = ex.new(n * ES[ty], 'arg', 'out')
        ex.call(fn, [Ptr(o, 0)])
        xs = [fv(ex.load(Ptr(o, k * ES[ty]), FT[ty])) for k in range(n)]
        if any(x is None for x in xs):
            raise Unproved('support points are not constants')
        cache[fn] = xs
    return cache[fn]


def lag(mod, b, i, der):
    """(coefficients of the cardinal polynomial i or its derivative, as function of the box: magnitude bound)."""
    cache = mod.__dict__.setdefault('lag_cache', {})
    k = (b.name, i, der)
    if k not in cache:
        xs = nodes(mod, b)
        if len(set(xs)) != len(xs):
            raise Unproved('support points coincide')
        a = [Fraction(1)]
        for j, x in enumerate(xs):
            if j != i:
                d = xs[i] - x
                a = pmulx(a, [-x / d, 1 / d])
        cache[k] = deriv(a) if der else a
    return cache[k]


def kappa(mod, b, i, der, B):
    cache = mod.__dict__.setdefault('kap_cache', {})
    k = (b.name, i, der, B)
    if k not in cache:
        xs = nodes(mod, b)
        B = Fraction(B)
        f = {j: (B + abs(x)) / abs(xs[i] - x) for j, x in enumerate(xs) if j != i}
        if der:
            r = Fraction(0)
            for j in f:
                t = 1 / abs(xs[i] - xs[j])
                for m in f:
                    if m != j:
                        t *= f[m]
                r += t
        else:
            r = Fraction(1)
            for t in f.values():
                r *= t
        cache[k] = fup(r)
    return cache[k]


def tol1(mod, b, i, der, B):
    return 32 * (b.n + 1) * U[b.ty] * kappa(mod, b, i, der, B) + TINY


def sub1(coef, p):
    """Univariate coefficients at a polynomial argument (an atom or a constant)."""
    if P.is_const(p):
        return P.const(peval(coef, P.cval(p)))
    r = {}
    pw = P.ONE
    for e, c in enumerate(coef):
        if e:
            pw = P.mul(pw, p)
        if c:
            r = P.add(r, P.scale(pw, c))
    return r


def tag1(B):
    return '1d@%s' % B


def key1(b, i, der, x):
    return ('L1', b.name, i, der, x.key())


def spec1(c, b, i, der, x, B):
    """Specification value of the one-dimensional basis function (or derivative) i at the machine input x."""
    mod = c.con.mod
    K = kappa(mod, b, i, der, B)
    t = tol1(mod, b, i, der, B)
    if tag1(B) in c.level and not c.concrete and not P.is_const(x.p):
        a = atom1(c.atoms, mod, b, i, der, x, B)
        return S(P.atom(a.id), t, up(K + t))
    return S(sub1(lag(mod, b, i, der), x.p), t, up(K + t))


def atom1(atoms, mod, b, i, der, x, B):
    K = kappa(mod, b, i, der, B)
    t = tol1(mod, b, i, der, B)
    k = key1(b, i, der, x)
    a = atoms.by.get(k)
    if a is None:
        a = atoms.get(k, -up(K + t), up(K + t), b.ty, (sub1(lag(mod, b, i, der), x.p), t), None,
                      '%s%s_%d(%s)' % ("d" if der else '', b.name, i, P.fmt(x.p, atoms.name)))
    return a


def basis_contract(b, i, der, B):
    what = 'gradient' if der else 'value'
    fn = 'basis_%s_%s_%d_%d' % (b.name, what, i, B)
    t = CTY[b.ty]
    cpp = 'SX %s %s( %s const * x ) { return %s::template %s< %d >( *x ); }' % (t, fn, t, b.cpp, what, i)

    def ens(c):
        mod = c.con.mod
        c.close('%s of basis function %d is the cardinal polynomial%s' % (what, i, ' derivative' if der else ''), c.ret,
                S(sub1(lag(mod, b, i, der), c.a['x'][0].p), 0.0, kappa(mod, b, i, der, B)), tol1(mod, b, i, der, B))

    def summary(ex, name, args):
        if len(args) != 1:
            return NotImplemented
        x = args[0]
        if isinstance(x, Ptr):
            x = ex.load(x, FT[b.ty])
        if not isinstance(x, FP) or x.ty != b.ty or x.E != 0:
            return NotImplemented
        if P.is_const(x.p):
            return NotImplemented
        mono, co = next(iter(x.p.items()))
        if len(x.p) != 1 or len(mono) != 1 or mono[0][1] != 1 or abs(co) > 1:
            return NotImplemented
        lo, hi = ex.box(mono[0][0])
        if not (-B <= lo and hi <= B):
            return NotImplemented
        mod = ex.mod
        a = atom1(ex.atoms, mod, b, i, der, x, B)
        return FP(P.atom(a.id), 0.0, max(abs(a.lo), abs(a.hi)), b.ty)
    return Contract(fn, cpp, fn, [In('x', b.ty, 1, -B, B)], ens, ret=b.ty, tag=tag1(B), summary=summary,
                    title='%s::%s< %d > on [-%d,%d]' % (b.cpp, what, i, B, B),
                    targets='LagrangeBasis::%s, valueProductTerm%s' % (what, ', valueProductFactor, gradientOfValueTerm' if der else ''))


def cardinal_contract(b):
    """Values at the support points, exactly the machine points: identity to a few ulps."""
    fn = 'basis_%s_cardinal' % b.name
    t = CTY[b.ty]
    N = b.N
    body = ' '.join('out[%d] = %s::template value< %d >( x[%d] );' % (i * N + j, b.cpp, i, j) for i in range(N) for j in range(N))
    cpp = 'SX void %s( %s * out ) { %s x[%d]; %s( x ); %s }' % (fn, t, t, N, b.helper, body)

    def ens(c):
        for i in range(N):
            for j in range(N):
                c.close('value of basis function %d at support point %d' % (i, j), c.o['out'][i * N + j], 1 if i == j else 0,
                        16 * N * U[b.ty] if i == j else 0.0)
    return Contract(fn, cpp, fn, [Out('out', b.ty, N * N)], ens, title='%s at its support points' % b.cpp, targets='LagrangeBasis::value', nsamples=1)


def lemma_contract(b):
    """Over the reals: the cardinal polynomials sum to one and their derivatives to zero."""
    fn = 'basis_%s_lemma' % b.name
    cpp = 'SX void %s( %s * out ) { %s( out ); env_i( %s::order ); env_i( %s::numSupportPoints ); }' % (fn, CTY[b.ty], b.helper, b.cpp, b.cpp)

    def ens(c):
        mod = c.con.mod
        xs = nodes(mod, b)
        c.prove('order and number of support points', [sg(a[0]) for _, a in c.trace] == [b.n, b.N])
        c.prove('support points strictly increasing', all(x < y for x, y in zip(xs, xs[1:])))
        for der in (0, 1):
            s = [Fraction(0)] * (b.N)
            for i in range(b.N):
                for e, q in enumerate(lag(mod, b, i, der)):
                    s[e] += q
            c.prove('lemma: %s' % ('derivatives sum to zero' if der else 'cardinal polynomials sum to one'),
                    s == ([Fraction(0)] if der else [Fraction(1)]) + [Fraction(0)] * (b.N - 1))
        for i in range(b.N):
            c.prove('lemma: polynomial %d is cardinal' % i, [peval(lag(mod, b, i, 0), x) for x in xs] == [int(i == j) for j in range(b.N)])
    return Contract(fn, cpp, fn, [Out('out', b.ty, b.N)], ens, title='%s support points' % b.cpp, targets='LagrangeBasis::coordinate (support points)', nsamples=1)


def bases1(tier):
    out = []
    for ty in 'df':
        hi = {'d': 16, 'f': 10}[ty]
        out += [Basis('E', n, ty) for n in range(1, hi + 1)]
        out += [Basis('L', n, ty) for n in (1, 2, 3)]
        out += [Basis('B', n, ty) for n in range(1, 9)]
    if tier == 'thorough':
        out += [Basis('E', n, 'd') for n in (17, 18, 20, 24)] + [Basis('E', n, 'f') for n in (11, 12)]
    out += [Basis('E', n, 'd') for n in literals.extra(17, 24, 3) if tier == 'quick' or n not in (17, 18, 20, 24)]
    return out


WIDE = (1 << 10, 1 << 20, 1 << 40)


def wide(b):
    """Coordinate boxes far outside the parent element, where no product of the evaluation can leave the floating range."""
    return [B for B in WIDE if B.bit_length() * b.n <= {'d': 900, 'f': 100}[b.ty]]


def basis_units(tier, der, std='17', bases=None, boxes=None):
    us = []
    for b in bases or bases1(tier):
        cons = [basis_contract(b, i, der, B) for B in boxes or [1, 16] + wide(b) for i in range(b.N)]
        if not der:
            cons += [cardinal_contract(b)]
        cons.append(lemma_contract(b))
        u = Unit('c1%d_%s_%s' % (der, b.name, std), cons, PRE10 + b.helper_cpp(), std=std)
        u.cost = b.n ** 3
        us.append(u)
    return us


def C10(tier):
    return basis_units(tier, 0)


def C11(tier):
    return basis_units(tier, 1)


META = {
    'C08': dict(bound='equal spacing with 2-21 points and ten larger counts up to 65 (thorough up to 257), selected points of fifteen counts from 127 to 2^30, Gauss-Legendre with 2-4, Gauss-Lobatto with 2-9; float and double'),
    'C09': dict(bound='Gauss-Legendre with 2-4 points, Gauss-Lobatto with 2-9 (run-time weights 2-5, the supported range); float and double; moment tolerance 4e-13 (double), 4e-6 (float)'),
    'C10': dict(bound='orders 1-16 (float 1-10; thorough 24 and 12) with equal spacing, 1-8 with Gauss-Lobatto, 1-3 with Gauss-Legendre; coordinates in [-1,1], [-16,16] and, where the value stays representable, up to 2^10, 2^20 and 2^40 in magnitude; float and double',
                assume=['rounding tolerance 32 (ORDER+1) u times the product of (B+|x_k|)/|x_i-x_k|']),
    'C11': dict(bound='orders 1-16 (float 1-10; thorough 24 and 12) with equal spacing, 1-8 with Gauss-Lobatto, 1-3 with Gauss-Legendre; coordinates in [-1,1], [-16,16] and, where the value stays representable, up to 2^10, 2^20 and 2^40 in magnitude; float and double',
                assume=['rounding tolerance 32 (ORDER+1) u times the corresponding sum of products']),
}
