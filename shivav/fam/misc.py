"""C18 (shapes), C19 (power, factorial, binomial), C20 (assertions), C23 (kernel wrappers)."""
import math
from fractions import Fraction
import z3
from ..contract import Contract, Int, FVal, Buf, In, Out, InOut
from ..unit import Unit
from ..sym import fconst, FP, FZ, S, Ptr, U, zq, fp_to_int
from .. import poly as P
from .. import literals
from .carray import IT, sg, mkunits, raw

CTY = {'d': 'double', 'f': 'float'}
RT = {'d': 'd', 'f': 'f'}


# ---------------------------------------------------------------- C18
PRE18 = '#include "shiva/geometry/shapes/NCube.hpp"\n#include "shiva/geometry/shapes/NSimplex.hpp"\nusing namespace shiva;\n'


def comb(n, k):
    return math.comb(n, k) if 0 <= k <= n else 0


def count_contract(kind, N, ty):
    fn = 'c18_count_%s_%d_%s' % (kind, N, ty)
    T = 'geometry::%s< %s, %d, -1, 2, 3 >' % ('NCube' if kind == 'cube' else 'NSimplex', CTY[ty], N)
    f = 'numMCubes' if kind == 'cube' else 'numMSimplexes'
    cpp = 'SX void %s( void ) { using T = %s; %s env_i( T::numDims() ); env_i( T::numVertices() ); env_i( T::numEdges() ); env_i( T::numFaces() ); env_i( T::numCells() ); env_i( T::numHyperFaces() ); }' % (
        fn, T, ' '.join('env_i( T::template %s< %d >() );' % (f, m) for m in range(N + 1)))

    def want(m):
        if m > N or m < 0:
            return 0
        return 2 ** (N - m) * comb(N, m) if kind == 'cube' else comb(N + 1, m + 1)

    def ens(c):
        got = [sg(a[0]) for _, a in c.trace]
        c.prove('numbers reported', len(got) == N + 7)
        if len(got) != N + 7:
            return
        for m in range(N + 1):
            c.prove('number of %d-dimensional entities is %d (got %d)' % (m, want(m), got[m]), got[m] == want(m))
        for nm, v, g in zip(('dimensions', 'vertices', 'edges', 'faces', 'cells', 'hyperfaces'),
                            (N, want(0), want(1), want(2), want(3), want(N - 1)), got[N + 1:]):
            c.prove('%s: %d (got %d)' % (nm, v, g), g == v)
    return Contract(fn, cpp, fn, [], ens, title='counts of ' + T, nsamples=1,
                    targets='%s, numVertices, numEdges, numFaces, numCells, numHyperFaces, numDims' % f)


def measure_contract(kind, N, ty, lo, hi, div, what):
    fn = 'c18_%s_%s_%d_%s_%s_%s_%d' % (what, kind, N, ty, str(lo).replace('-', 'm'), str(hi).replace('-', 'm'), div)
    T = 'geometry::%s< %s, %d, %d, %d, %d >' % ('NCube' if kind == 'cube' else 'NSimplex', CTY[ty], N, lo, hi, div)
    cpp = 'SX %s %s( void ) { return %s::%s(); }' % (CTY[ty], fn, T, what)
    L = Fraction(hi - lo, div)
    v = {'minCoord': Fraction(lo, div), 'maxCoord': Fraction(hi, div), 'length': L,
         'volume': L ** N / (1 if kind == 'cube' else math.factorial(N))}[what]

    def ens(c):
        c.close('%s is %s' % (what, v), c.ret, v, float(abs(v)) * U[ty] * (4 * N if what == 'volume' else 2))
    return Contract(fn, cpp, fn, [], ens, ret=RT[ty], title='%s::%s' % (T, what), targets=what, nsamples=1)


def lit_intervals():
    return [t for v in literals.extra(10, 2 ** 31 - 2, 6) for t in ((0, v, 1), (-v, 1, 2), (-1, 1, v))]


def C18(tier):
    cons = []
    for ty in 'df':
        for N in range(1, 13):
            cons.append(count_contract('cube', N, ty))
        for N in range(1, 12):
            cons.append(count_contract('simplex', N, ty))
        for kind in ('cube', 'simplex'):
            for N in list(range(1, 13)) + (literals.extra(13, 40, 6) if kind == 'cube' else []):
                for lo, hi, div in [(-1, 1, 1), (0, 1, 1), (-1, 2, 3), (3, 10, 7), (-5, -2, 2), (-1000, 1000, 999), (0, 1000, 10),
                                    (-70000, 30000, 7), (-7, 9, 4), (-2, 5, 1), (0, 3, 1)] + lit_intervals() + [(1, 2, 1000), (-3, 5, 100), (-2147483648, 2147483647, 1), (-2000000000, 2000000000, 2000000000),
                                    (2147483646, 2147483647, 1), (-2147483648, -2147483647, 3), (-1, 2147483647, 2147483647), (-1500000000, 700000000, 3)] + ([] if tier == 'quick' else [(-9, -8, 1), (17, 18, 16), (-1, 0, 1), (2, 100, 3)]):
                    if (ty == 'f' and not 10 ** -25 < (Fraction(hi - lo, div)) ** N < 10 ** 37):
                        continue
                    for what in ('minCoord', 'maxCoord', 'length', 'volume'):
                        if what != 'volume' and N not in (1, 3):
                            continue
                        cons.append(measure_contract(kind, N, ty, lo, hi, div, what))
    # the named shapes
    for ty in 'df':
        for nm, n, lo, hi, k in (('Square', 2, -1, 1, 'cube'), ('Cube', 3, -1, 1, 'cube'), ('Triangle', 2, 0, 1, 'simplex'), ('Tetrahedron', 3, 0, 1, 'simplex')):
            cons.append(named_contract(nm, n, lo, hi, k, ty))
    return mkunits('c18', cons, 6, pre=PRE18)


def named_contract(nm, n, lo, hi, k, ty):
    fn = 'c18_named_%s_%s' % (nm, ty)
    T = 'geometry::%s< %s >' % (nm, CTY[ty])
    cpp = 'SX void %s( %s * out ) { using T = %s; env_i( T::numDims() ); out[0] = T::minCoord(); out[1] = T::maxCoord(); out[2] = T::length(); out[3] = T::volume(); }' % (fn, CTY[ty], T)
    v = [Fraction(lo), Fraction(hi), Fraction(hi - lo), Fraction((hi - lo) ** n, 1 if k == 'cube' else math.factorial(n))]

    def ens(c):
        c.prove('dimension', [sg(a[0]) for _, a in c.trace] == [n])
        for i, w in enumerate(('min', 'max', 'length', 'volume')):
            c.close(w, c.o['out'][i], v[i], 4 * n * U[ty] * float(abs(v[i])))
    return Contract(fn, cpp, fn, [Out('out', ty, 4)], ens, title=T, targets='named shapes', nsamples=1)


# ---------------------------------------------------------------- C19
PRE19 = '#include "shiva/common/MathUtilities.hpp"\nusing namespace shiva;\n'


def iroot(m, e):
    """Largest b with b**e <= m."""
    lo, hi = 0, 1
    while hi ** e <= m:
        hi *= 2
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if mid ** e <= m:
            lo = mid
        else:
            hi = mid
    return lo


def ipow_contract(T, E):
    w, sgd = IT[T]
    fn = 'c19_pow_%s_%d' % (T.replace(' ', '_'), E)
    cpp = 'SX %s %s( %s b ) { return mathUtilities::pow< %s, %d >( b ); }' % (T, fn, T, T, E)
    mx = (1 << (w - 1)) - 1 if sgd else (1 << w) - 1
    if E == 0:
        a = Int('b', w, sgd)
    elif E == 1:
        a = Int('b', w, sgd)
    else:
        B = iroot(mx, E)
        a = Int('b', w, sgd, -B if sgd else 0, B)

    def ens(c):
        b = c.a['b']
        if c.concrete:
            c.prove('base^%d' % E, raw(c.ret, w) == raw(b ** E, w))
            return
        r = z3.BitVecVal(1, w)
        for _ in range(E):
            r = r * b
        got = z3.BitVecVal(c.ret, w) if type(c.ret) is int else c.ret
        c.prove('base^%d' % E, z3.simplify(got - r, som=True) == 0)
    return Contract(fn, cpp, fn, [a], ens, ret={32: 'i', 64: 'i', 16: 'i', 8: 'i'}[w].replace('i', 'i' if sgd else 'u') + str(w),
                    title='pow< %s, %d >' % (T, E), targets='mathUtilities::pow')


def const_contract(cid, expr, val, T, tgt):
    w, sgd = IT[T]
    fn = cid
    cpp = 'SX void %s( void ) { env_i( %s ); }' % (fn, expr)

    def ens(c):
        g = [sg(a[0]) if sgd else a[0][()] if False else a[0] for _, a in c.trace]
        c.prove('%s is %d (got %s)' % (expr, val, g), len(g) == 1 and g[0] == val)
    return Contract(fn, cpp, fn, [], ens, title=expr, targets=tgt, nsamples=1)


def fpow_contract(ty, E, B):
    T = CTY[ty]
    fn = 'c19_fpow_%s_%d_%d' % (ty, E, B)
    cpp = 'SX %s %s( %s b ) { return mathUtilities::pow< %s, %d >( b ); }' % (T, fn, T, T, E)

    def ens(c):
        b = c.a['b']
        if E == 0:
            c.same('power zero is one', c.ret, fconst(1, ty))
        elif E == 1:
            c.same('power one is the base', c.ret, b)
        else:
            c.close('base^%d' % E, c.ret, S(P.power(b.p, E), 0.0, float(B) ** E), 2 * E * U[ty] * float(B) ** E + 1e-44)
    return Contract(fn, cpp, fn, [FVal('b', ty, -B, B)], ens, ret=ty, title='pow< %s, %d >' % (T, E), targets='mathUtilities::pow')


def fpow_scaled_contract(ty, E, k, s):
    """Bases of one binade, far from one; the tolerance is relative to the largest result of the binade."""
    T = CTY[ty]
    fn = 'c19_fpows_%s_%d_%s%d_%s' % (ty, E, 'm' if k < 0 else '', abs(k), 'm' if s < 0 else 'p')
    cpp = 'SX %s %s( %s b ) { return mathUtilities::pow< %s, %d >( b ); }' % (T, fn, T, T, E)
    lo, hi = 2.0 ** k, 2.0 ** (k + 1)

    def ens(c):
        b = c.a['b']
        c.close('base^%d' % E, c.ret, S(P.power(b.p, E), 0.0, hi ** E), 2 * E * U[ty] * hi ** E)
    return Contract(fn, cpp, fn, [FVal('b', ty, *((lo, hi) if s > 0 else (-hi, -lo)))], ens, ret=ty,
                    title='pow< %s, %d > on %s[2^%d,2^%d]' % (T, E, '-' if s < 0 else '', k, k + 1), targets='mathUtilities::pow')


LIT = {'int': '', 'long': 'L', 'unsigned': 'U', 'unsigned long': 'UL', 'short': '', 'long long': 'LL'}


BIG_E = [64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 600, 1000]


def C19(tier):
    cons = []
    hiE = 33 if tier == 'quick' else 66
    for T in ('int', 'long', 'unsigned', 'unsigned long', 'long long'):
        for E in list(range(0, hiE + 1)) + [E for E in BIG_E if E > hiE] + [E for E in literals.extra(hiE + 1, 1000) if E not in BIG_E]:
            cons.append(ipow_contract(T, E))
    # the most negative results, which a symmetric range of bases does not contain
    for b, E, T in ((-2, 31, 'int'), (-2, 63, 'long'), (-8, 21, 'long'), (-128, 9, 'long'), (-2097152, 3, 'long')):
        cons.append(const_contract('c19_neg_%s_%d_%d' % (T, -b, E), 'mathUtilities::pow< %s, %d >( %d )' % (T, E, b), b ** E, T, 'mathUtilities::pow'))
    for ty in 'df':
        for E in list(range(0, hiE + 1)) + [E for E in BIG_E if E > hiE] + [E for E in literals.extra(hiE + 1, 300, 9) if E not in BIG_E]:
            for B in (1, 2, 10):
                if B ** E < (10 ** 300 if ty == 'd' else 10 ** 30):
                    cons.append(fpow_contract(ty, E, B))
            for k in (-300, -100, -60, -30, -14, -7, -3, -1, 3, 7, 14, 30, 60, 100, 300):
                if E > 1 and max(k * E, (k + 1) * E, key=abs) in (range(-940, 1000) if ty == 'd' else range(-94, 124)):
                    cons += [fpow_scaled_contract(ty, E, k, s) for s in (1, -1)]
    for T, hi in (('int', 12), ('long', 20), ('unsigned', 12), ('unsigned long', 20), ('short', 7)):
        for N in range(hi + 1):
            cons.append(const_contract('c19_fact_%s_%d' % (T.replace(' ', '_'), N), 'mathUtilities::factorial< %s, %d >::value' % (T, N),
                                       math.factorial(N), T, 'mathUtilities::factorial'))
    for T, hi in (('int', 12), ('long', 20), ('unsigned', 12), ('unsigned long', 20), ('long long', 20), ('short', 7)):
        for N in range(hi + 1):
            for K in range(N + 1):
                cons.append(const_contract('c19_binom_%s_%d_%d' % (T.replace(' ', '_'), N, K),
                                           'mathUtilities::binomialCoefficient< %s, %d, %d >::value' % (T, N, K), comb(N, K), T,
                                           'mathUtilities::binomialCoefficient'))
    us = mkunits('c19', cons, 8, pre=PRE19)
    for u in us:
        u.ubsan = True
    return us


# ---------------------------------------------------------------- C20
PRE20 = '#include "shiva/common/ShivaErrorHandling.hpp"\n'


def cstr(ex, p):
    """Text a pointer designates (constant bytes up to the terminator), None when there is none."""
    if not isinstance(p, Ptr) or p.o is None or type(p.off) is not int:
        return None
    out = []
    off = p.off
    while off < p.o.size and len(out) < 100000:
        b = ex.bytes_of(p.o, off, 1)
        if not b or type(b[0]) is not int:
            return None
        if b[0] == 0:
            return bytes(out).decode(errors='replace')
        out.append(b[0])
        off += 1
    return None


def short(s):
    return repr(s) if len(s) < 100 else '%r ... (%d characters)' % (s[:40], len(s))


def reported(c, what, strings, values):
    """Everything named was handed to writes on standard error."""
    if c.concrete:
        for s in strings + [v if isinstance(v, str) else str(v) for v in values]:
            c.prove('%s reports %s' % (what, short(s)), s in c.text)
        return
    ev = [e for e in c.events if e[1] == 'stderr']
    c.prove('%s writes to standard error only' % what, len(ev) == len([e for e in c.events if e[0] != 'free']) and len(ev) > 0)
    args = [a for e in ev for a in e[2]]
    texts = [t for t in (cstr(c.ex, a) for a in args) if t is not None]
    for s in strings:
        c.prove('%s reports the text %s' % (what, short(s)), any(s in t for t in texts))
    for v in values:
        ok = False
        for a in args:
            if isinstance(v, FP):
                ok = ok or (isinstance(a, FP) and a.E == 0 and a.p == v.p)
            elif type(v) is int:
                ok = ok or (type(a) is int and a == v) or any(str(v) in t for t in texts)
            else:
                ok = ok or (isinstance(a, z3.BitVecRef) and a.size() == v.size() and z3.is_true(z3.simplify(a == v)))
        c.prove('%s reports the value %s' % (what, v), ok)


def cfmt(v):
    return '%g' % float(P.cval(v.p))


def handler_contract(k, file, va):
    fn = 'c20_handler_%d_%s' % (k, va)
    esc = file.replace('\\', '\\\\').replace('"', '\\"')
    if va == 'none':
        call = '"plain message"'
        ps, args = '', []
    elif va == 'int':
        call = '"value <%d> end", v'
        ps, args = ', int v', [Int('v', 32, True)]
    elif va == 'two':
        call = '"value <%d> and <%g>", v, d'
        ps, args = ', int v, double d', [Int('v', 32, True), FVal('d', 'd', -1000, 1000)]
    elif va == 'str':
        call = '"text <%s> %d", "inner text", v'
        ps, args = ', int v', [Int('v', 32, True)]
    elif va == 'long':
        call = '"long <%ld> %s%s", w, "a", "b"'
        ps, args = ', long w', [Int('w', 64, True)]
    elif va == 'far':
        call = '"%s<%%s> end %%d", "%s", v' % ('m' * 5000, 't' * 9000)
        ps, args = ', int v', [Int('v', 32, True)]
    cpp = 'SX void %s( int line, bool ca%s ) { env_i( 1 ); shivaAssertionFailed( "%s", line, ca, %s ); env_i( 2 ); }' % (fn, ps, esc, call)

    def ens(c):
        ca = c.a['ca']
        line = c.a['line']
        one = ca != 0 if type(ca) is int else ca == 1
        n = len(c.trace)
        if c.status == 'abort':
            c.prove('aborts only when asked to', one)
            c.prove('does not return before aborting', n <= 1)
        else:
            c.prove('returns only when not asked to abort', (not one) if type(one) is bool else z3.Not(one))
            c.prove('the caller continues', n == 2)
        if c.concrete:
            v, w, d = c.a.get('v'), c.a.get('w'), c.a.get('d')
            texts = [file, str(line)] + {'none': ['plain message'], 'int': ['value <%s> end' % v], 'two': ['value <%s> and <%s>' % (v, d and cfmt(d))],
                                         'str': ['text <inner text> %s' % v], 'long': ['long <%s> ab' % w],
                                         'far': ['m' * 5000 + '<' + 't' * 9000 + '> end %s' % v]}[va]
            reported(c, 'the handler', texts, [])
        else:
            strings = [file] + {'none': ['plain message'], 'int': ['value <'], 'two': ['value <'], 'str': ['inner text'], 'long': ['long <'], 'far': ['m' * 5000 + '<', 't' * 9000]}[va]
            vals = [line] + [c.a[x] for x in ('v', 'w', 'd') if x in c.a]
            reported(c, 'the handler', strings, vals)
    return Contract(fn, cpp, fn, [Int('line', 32, True), Int('ca', 1, False)] + args, ens, may_abort=True,
                    title='shivaAssertionFailed( "%s", line, callAbort, %s )' % (file if len(file) < 80 else file[:30] + '...', call if len(call) < 99 else call[:30] + '...'), targets='shivaAssertionFailed', nsamples=12)


CONDS = {
    'lt': ('a < b', lambda a, b: a < b),
    'or': ('a < 3 || b == 7', lambda a, b: a < 3 or b == 7),
    'and': ('a >= 0 && a < 10', lambda a, b: 0 <= a < 10),
    'assign': ('( x = a ) == b', lambda a, b: a == b),
    'ptr': ('a ? b == 2 : b == 3', lambda a, b: b == 2 if a != 0 else b == 3),
    'bits': ('a & 4', lambda a, b: a & 4 != 0),
    'once': ('once( a ) == b', lambda a, b: a == b),
    'comma': ('( env_call(), a > b )', lambda a, b: a > b),
    'step': ('( x = static_cast< int >( static_cast< unsigned >( x ) + 1u ) ) == b', lambda a, b: (a + 1) & 0xffffffff == b & 0xffffffff),
}
ZC = {
    'lt': lambda a, b: a < b, 'or': lambda a, b: z3.Or(a < 3, b == 7), 'and': lambda a, b: z3.And(a >= 0, a < 10),
    'assign': lambda a, b: a == b, 'ptr': lambda a, b: z3.If(a != 0, b == 2, b == 3), 'bits': lambda a, b: (a & 4) != 0,
    'once': lambda a, b: a == b, 'comma': lambda a, b: a > b, 'step': lambda a, b: a + 1 == b,
}


def macro_contract(name, how, line, nd):
    fn = 'c20_macro_%s_%s_%s' % (name, how, nd)
    cond = CONDS[name][0]
    msg = '"condition failed <%d>", v' if how != 'plain' else '"only text"'
    fl = '"some_source_%s.hpp"' % how
    st = 'SHIVA_ASSERT_MSG( %s, %s );' % (cond, msg)
    if how == 'else':
        body = 'if ( k > 0 )\n#line %d %s\n%s\nelse env_i( 3 );' % (line, fl, st)
    elif how == 'loop':
        body = 'for ( int q = 0; q < 2; ++q )\n#line %d %s\n%s\n' % (line, fl, st)
    else:
        body = '\n#line %d %s\n%s\n' % (line, fl, st)
    cpp = '''static int once_%s( int a ) { env_call(); return a; }
SX int %s( int a, int b, int v, int k ) { int x = a; %s env_i( 9 ); return x; }''' % (fn, fn, body.replace('once(', 'once_%s(' % fn))

    def ens(c):
        a, b = c.a['a'], c.a['b']
        con = CONDS[name][1](a, b) if c.concrete else ZC[name](a, b)
        neg = (not con) if type(con) is bool else z3.Not(con)
        k = c.a['k']
        skip = None
        if how == 'else':
            skip = k <= 0
        n = 2 if how == 'loop' else 1
        calls = sum(1 for e in c.trace if e[0] == 'env_call')
        marks = [sg(e[1][0]) for e in c.trace if e[0] == 'env_i' and type(e[1][0]) is int]
        if c.status == 'abort':
            c.prove('reports only a false condition', neg)
            if skip is not None:
                c.prove('the assertion belongs to its own branch', z3.Not(skip) if not isinstance(skip, bool) else not skip)
            c.prove('nothing runs after the failure', marks == [])
            if name in ('once', 'comma') and not c.concrete:
                c.prove('condition evaluated once', calls == 1)
            if c.concrete:
                reported(c, 'the macro', ['some_source_%s.hpp' % how, str(line), 'condition failed <%d>' % c.a['v'] if how != 'plain' else 'only text'], [])
            else:
                reported(c, 'the macro', ['some_source_%s.hpp' % how, 'condition failed' if how != 'plain' else 'only text'],
                         [line] + ([c.a['v']] if how != 'plain' else []))
            return
        if how == 'else':
            ok = (skip or con) if c.concrete else z3.Or(skip, con)
            c.prove('a false condition does not go on', ok)
            tookelse = 3 in marks
            c.prove('else belongs to the outer if', tookelse == skip if c.concrete else (skip if tookelse else z3.Not(skip)))
            c.prove('execution goes on', marks == ([3, 9] if tookelse else [9]))
            if tookelse:
                n = 0
        else:
            c.prove('a false condition does not go on', con)
            c.prove('execution goes on', marks == [9])
        c.prove('a true condition reports nothing', not c.events)
        if name in ('once', 'comma'):
            c.prove('condition evaluated once', calls == n)
        c.same('the condition does what it says and no more', raw(c.ret, 32), raw(a + 1 if name == 'step' and n else a, 32))
    args = [Int('a', 32, True), Int('b', 32, True), Int('v', 32, True), Int('k', 32, True)]

    def sampler(rng):
        r = lambda: rng.choice([rng.randint(-3, 12), rng.randint(-2 ** 31, 2 ** 31 - 1), 7, 2, 3, 4])
        a = r()
        return dict(a=a, b=rng.choice([a, r(), 7] if name != 'step' else [(a + 2 ** 31 + q) % 2 ** 32 - 2 ** 31 for q in (0, 1, 2, 3)]), v=r(), k=rng.choice([-1, 0, 1, 5]))
    return Contract(fn, cpp, fn, args, ens, ret='i32', may_abort=True, title='SHIVA_ASSERT_MSG( %s, %s ) (%s)' % (cond, msg, how),
                    targets='SHIVA_ASSERT_MSG', nsamples=16, sampler=sampler)


def C20(tier):
    out = []
    for nd in ('dbg', 'ndebug'):
        pre = ('#define NDEBUG\n' if nd == 'ndebug' else '') + PRE20
        cons = []
        k = 0
        for file in ('source.cpp', '/a/long path/with %d %s 100%/x.hpp', 'dir\\back\\x.cpp', 'q"uote.cpp', '/' + 'd' * 6000 + '/x.cpp'):
            for va in ('none', 'int', 'two', 'str', 'long', 'far'):
                cons.append(handler_contract(k, file, va))
                k += 1
        line = 1000
        for name in CONDS:
            for how in ('msg', 'plain', 'else', 'loop')[:3 if name == 'step' else 4]:
                line += 777
                cons.append(macro_contract(name, how, line, nd))
        out += mkunits('c20' + nd, cons, 3, pre=pre)
        out += mkunits('c20nb' + nd, [macro_contract('lt', 'msg', 4321, nd + 'nb'), handler_contract(99, 'f.cpp', 'two')], 1, pre=pre, bounds=False)
    return out


# ---------------------------------------------------------------- C23
PRE23 = '#include "shiva/common/pmpl.hpp"\nusing namespace shiva;\n'


def kernel_contract(how, ty):
    T = {'d': 'double', 'f': 'float', 32: 'int', 8: 'unsigned char'}[ty]
    fn = 'c23_kernel_%s_%s' % (how, ty)
    n = 6
    fl = ty in ('d', 'f')
    pre = ''
    ps = 'int N, %s * buf, bool ab, int k' % T
    ab = ', ab'
    lam = '[=]( %s * const p ) { env_call(); env_p( p ); env_i( k ); p[2] = p[4]; }' % T
    if how == 'rvalue':
        body = 'pmpl::genericKernelWrapper( N, buf, %s, ab );' % lam
    elif how == 'default':
        body = 'pmpl::genericKernelWrapper( N, buf, %s );' % lam
    elif how == 'lvalue':
        body = 'auto f = %s; pmpl::genericKernelWrapper( N, buf, f, ab );' % lam
    elif how == 'constl':
        body = 'auto const f = %s; pmpl::genericKernelWrapper( N, buf, f, ab );' % lam
    elif how == 'constdata':
        body = '%s const * const q = buf; pmpl::genericKernelWrapper( N, q, [=]( %s const * const p ) { env_call(); env_p( p ); env_i( k ); }, ab );' % (T, T)
    elif how == 'moveonly':
        pre = 'struct M_%s { int k; explicit M_%s( int q ): k( q ) {} M_%s( M_%s const & ) = delete; M_%s( M_%s && o ): k( o.k ) { o.k = -1; } void operator()( %s * p ) { env_call(); env_p( p ); env_i( k ); p[2] = p[4]; } };\n' % ((fn,) * 6 + (T,))
        body = 'pmpl::genericKernelWrapper( N, buf, M_%s( k ), ab );' % fn
    elif how == 'capture':
        body = 'pmpl::genericKernelWrapper( [=]() { env_call(); env_p( buf ); env_i( k ); buf[2] = buf[4]; }, ab );'
    elif how == 'capturedefault':
        body = 'pmpl::genericKernelWrapper( [=]() { env_call(); env_p( buf ); env_i( k ); buf[2] = buf[4]; } );'
    elif how == 'capturelvalue':
        body = 'auto f = [=]() { env_call(); env_p( buf ); env_i( k ); buf[2] = buf[4]; }; pmpl::genericKernelWrapper( f, ab );'
    elif how == 'direct':
        body = 'pmpl::genericKernel( %s, buf );' % lam
    elif how == 'directcapture':
        body = 'pmpl::genericKernel( [=]() { env_call(); env_p( buf ); env_i( k ); buf[2] = buf[4]; } );'
    cpp = pre + 'SX void %s( %s ) { %s env_i( 77 ); }' % (fn, ps, body)

    def ens(c):
        names = [e[0] for e in c.trace]
        c.prove('functor called exactly once, before the wrapper returns (%s)' % names, names == ['env_call', 'env_p', 'env_i', 'env_i'])
        if len(c.trace) != 4:
            return
        c.ptr_is('the functor receives the caller data pointer', c.trace[1][1][0], 'buf', 0)
        kk = c.a['k']
        got = c.trace[2][1][0]
        if c.concrete:
            c.prove('captured state', sg(got) == kk)
        else:
            c.prove('captured state', got == z3.SignExt(32, kk))
        c.prove('last', c.trace[3][1][0] == 77)
        c.prove('nothing printed', not c.events)
        for i in range(n):
            j = 4 if i == 2 and how != 'constdata' else i
            c.same('element %d' % i, c.o['buf'][i], c.a['buf'][j])
    return Contract(fn, cpp, fn, [Int('N', 32, True), InOut('buf', ty, n, -8, 8), Int('ab', 1, False), Int('k', 32, True)], ens,
                    title='genericKernelWrapper (%s)' % how, targets='genericKernelWrapper, genericKernel', nsamples=4)


def check_contract(ty, form):
    T = CTY[ty]
    fn = 'c23_check_%s_%s' % (form, ty)
    u = Fraction(1, 2 ** 53 if ty == 'd' else 2 ** 24)
    B = 2 ** (1000 if ty == 'd' else 120)
    args = [FVal('a', ty, -B, B), FVal('b', ty, -B, B), FVal('t', ty, -B, B)]

    def rq(v):
        if isinstance(v, FZ):
            return v.z
        return P.cval(v.p)
    if form == 'spec':
        cpp = 'SX bool %s( %s a, %s b, %s t ) { return pmpl::check( a, b, t ); }' % (fn, T, T, T)

        def ens(c):
            a, b, t = (rq(c.a[x]) for x in 'abt')
            r = c.ret
            e = 16 * u
            if c.concrete:
                d2, t2 = (a - b) ** 2, t * t
                c.prove('true means within the tolerance', (not r) or d2 <= t2 * (1 + e))
                c.prove('within the tolerance means true', bool(r) or d2 >= t2 * (1 - e))
                c.prove('zero tolerance accepts nothing', not (t == 0 and r))
                return
            rr = z3.BoolVal(bool(r)) if type(r) is int else r if isinstance(r, z3.BoolRef) else r == 1
            d2, t2 = (a - b) * (a - b), t * t
            c.prove('true means within the tolerance', z3.Implies(rr, d2 <= t2 * zq(1 + e)))
            c.prove('within the tolerance means true', z3.Implies(d2 < t2 * zq(1 - e), rr))
    else:
        cpp = 'SX bool %s( %s a, %s b, %s t ) { return pmpl::check( a, b, t ) == pmpl::check( b, a, t ); }' % (fn, T, T, T)

        def ens(c):
            r = c.ret
            c.prove('symmetric in its operands', r if not type(r) is int else bool(r))
    def sampler(rng):
        m = rng.choice(['near', 'any', 'edge'])
        import numpy as np
        q = (lambda x: float(np.float32(x))) if ty == 'f' else float
        a = q(rng.uniform(-10, 10))
        t = q(rng.choice([1e-3, 1, 0.5, -0.5, 2.0, 1e-12 if ty == 'd' else 1e-4, rng.uniform(-4, 4)]))
        if rng.random() < 0.4:      # far from one
            k = 2.0 ** rng.choice([-900, -600, -300, 300, 600, 900] if ty == 'd' else [-120, -90, -60, 60, 90, 110])
            a, t = q(a * k), q(t * k)
            if m == 'any':
                return dict(a=a, b=q(k * rng.uniform(-10, 10)), t=t)
        b = q(a + t) if m == 'edge' else q(a + t * rng.uniform(-1.5, 1.5)) if m == 'near' else q(rng.uniform(-10, 10))
        return dict(a=a, b=b, t=t)
    return Contract(fn, cpp, fn, args, ens, ret='i1', title='pmpl::check< %s > (%s)' % (T, form), targets='pmpl::check', nra=True,
                    sampler=sampler, nsamples=60)


def C23(tier):
    cons = []
    for how in ('rvalue', 'default', 'lvalue', 'constl', 'constdata', 'moveonly', 'capture', 'capturedefault', 'capturelvalue', 'direct', 'directcapture'):
        for ty in ('d', 'f', 32, 8):
            cons.append(kernel_contract(how, ty))
    chk = [check_contract(ty, form) for ty in 'df' for form in ('spec', 'sym')]
    return mkunits('c23', cons, 2, pre=PRE23) + mkunits('c23chk', chk, 4, pre=PRE23) + \
        mkunits('c23nd', [kernel_contract(h, 'd') for h in ('rvalue', 'capture')], 1, pre='#define NDEBUG\n' + PRE23)


META = {
    'C18': dict(bound='cubes of dimension 1-12 and simplices of dimension 1-11 with every M; measures for dimensions 1-12 and 13 (thorough 17) MIN/MAX/DIVISOR; float and double'),
    'C19': dict(bound='exponents 0-33 (thorough 0-66) and thirteen larger ones up to 1000; int, long, long long and unsigned forms; float and double bases in [-10,10] and in positive and negative binades from 2^-300 to 2^300 (as far as the result is representable); factorials and binomials whose factorials fit the type',
                assume=['integer bases restricted to those whose power is representable (signed types)']),
    'C20': dict(bound='five file names (with formatting characters, backslashes and quotes; one of 6000 characters), six argument lists (one message of 14000 characters), nine condition forms, four statement contexts, with and without NDEBUG',
                trust=['stdio renders its arguments as ISO C says; native runs compare the rendered text']),
    'C23': dict(bound='functors by value, lvalue, const, move-only; double, float, int and unsigned char data; operands and tolerances up to 2^1000 (double) or 2^120 (float) in magnitude, subnormals included'),
}
