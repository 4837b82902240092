"""C05 (multi-index linearisation), C06 (range iteration), C07 (compile-time loops)."""
import itertools
import z3
from ..contract import Contract, Int, FVal, Buf, In, Out, InOut
from .carray import IT, size, strides, tag, lin, sg, mkunits, bvlt, raw
from ..sym import fconst
from .. import literals

PRE5 = '#include "shiva/common/IndexTypes.hpp"\nusing namespace shiva;\n'
PRE7 = '#include "shiva/common/SequenceUtilities.hpp"\n#include "shiva/common/NestedSequenceUtilities.hpp"\nusing namespace shiva;\n'

RANGES_Q = [(1,), (3,), (1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (2, 3, 4), (4, 3, 2), (3, 3, 3), (1, 5, 2), (5, 1, 2), (2, 5, 1),
            (2, 3, 4, 5), (5, 4, 3, 2), (1, 2, 1, 3), (2, 2, 2, 2, 2), (3, 2, 4, 2, 3), (2, 3, 2, 3, 2, 3), (100, 7), (7, 100, 9),
            (1000, 1000, 1000), (46340, 46340)]
RANGES_T = RANGES_Q + [(2,), (17,), (6, 5), (5, 6), (2, 2), (9, 8, 7), (7, 8, 9), (1, 1, 1), (2, 1, 3), (3, 1, 2), (6, 5, 4, 3), (2, 7, 3, 5),
                       (4, 4, 4, 4), (5, 2, 3, 2, 4), (2, 1, 2, 1, 2), (2, 2, 3, 3, 2, 2), (1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1), (2, 2, 2, 2, 2, 2, 2),
                       (100, 100, 100, 100), (65536, 32767), (2147483647,), (3, 2, 3, 2, 3, 2, 3), (2, 3, 2, 2, 3, 2, 2, 2), (7, 1, 2, 3, 1, 5, 2, 3, 2),
                       (2, 3, 2, 3, 2, 3, 2, 3, 2, 3), (2,) * 12, (1, 3, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 3), (2,) * 16, (33, 1, 65), (11, 13, 17, 19), (10, 10, 10, 10, 10, 10, 10)]
# products and ranges beyond 32 bits (64-bit and unsigned base types), and at the limit of narrow base types
RANGES_W = [(2, 100000, 100000), (3, 2147483647), (3000000000,), (2, 3000000000), (3000000000, 3), (4294967295,), (65535, 65537),
            (2, 3, 65536, 65536), (2, 2, 2, 2000000000), (5000000000, 2, 3), (1, 3037000499, 3037000499), (3, 70000, 7, 70000),
            (2, 4294967296), (2147483648, 2147483648, 2), (9223372036854775807,)]
RANGES_N = [(127,), (5, 25), (3, 2, 21), (255,), (15, 17), (2, 127), (32767,), (181, 181), (7, 4681), (65535,), (255, 257), (3, 5, 17, 257)]


def irange(R, B):
    return 'MultiIndexRange< %s, %s >' % (B, ', '.join(str(r) + ('u' if r > 2 ** 31 - 1 else '') + ('l' if r > 2 ** 32 - 1 else '') for r in R))


def lin_contract(R, B, how):
    w, sgd = IT[B]
    n = len(R)
    fn = 'c05_lin_%s_%s_%s' % (tag(R), B.replace(' ', '_'), how)
    I = irange(R, B)
    rt = B if w >= 32 else 'int'
    if how == 'val':
        ps = ', '.join('%s i%d' % (B, k) for k in range(n))
        cpp = 'SX %s %s( %s ) { %s const m{ { %s } }; return linearIndex( m ); }' % (rt, fn, ps, I, ', '.join('i%d' % k for k in range(n)))
    else:
        # the multi-index lives in caller memory: nothing but its own data is read, nothing is written
        ps = ', '.join('%s i%d' % (B, k) for k in range(n))
        cpp = 'SX %s %s( %s * buf, %s ) { %s & m = *reinterpret_cast< %s * >( buf ); %s return linearIndex( m ); }' % (
            rt, fn, B, ps, I, I, ' '.join('m.data[%d] = i%d;' % (k, k) for k in range(n)))
    args = ([] if how == 'val' else [Out('buf', w, n)]) + [Int('i%d' % k, w, sgd, 0, R[k] - 1) for k in range(n)]

    def ens(c):
        W = 128
        def ext(v):
            if type(v) is int:
                return z3.BitVecVal(v, W)
            return (z3.SignExt if sgd else z3.ZeroExt)(W - v.size(), v)
        idx = [ext(c.a['i%d' % k]) for k in range(n)]
        if c.concrete:
            r = c.ret
            r = r & ((1 << max(w, 32)) - 1) if type(r) is int else r
            want = lin(R, [c.a['i%d' % k] for k in range(n)])
            c.prove('linear index is the row-major rank', r == want)
        else:
            # in the machine type (the rank is below the product of the ranges, which fits)
            mi = [c.a['i%d' % k] for k in range(n)]
            if w < 32:
                mi = [(z3.SignExt if sgd else z3.ZeroExt)(32 - w, x) if not type(x) is int else x for x in mi]
            L = lin(R, mi)
            c.prove('linear index is the row-major rank', eqbv(c.ret, L, max(w, 32)))
            j = [z3.BitVec('lj%d' % k, 64) for k in range(n)]
            i = [z3.BitVec('li%d' % k, 64) for k in range(n)]
            lemma_bijection(c, R, i, j)
        if how != 'val':
            for k in range(n):
                c.same('component %d unchanged' % k, c.o['buf'][k], raw(c.a['i%d' % k], w))
    return Contract(fn, cpp, fn, args, ens, ret='i64' if w == 64 else 'i32',
                    title='linearIndex( %s )' % I, targets='linearIndex, detail::linearIndexHelper, stride, strideHelper')


def eqbv(a, b, w):
    a = z3.BitVecVal(a, w) if type(a) is int else a
    b = z3.BitVecVal(b, w) if type(b) is int else b
    return a == b


def lemma_bijection(c, R, i, j):
    """Row-major rank: onto 0..prod-1 and injective. Injectivity by Horner steps (linear arithmetic)."""
    n = len(R)
    I = [z3.Int('li%d' % k) for k in range(n)]
    J = [z3.Int('lj%d' % k) for k in range(n)]
    rng = [z3.And(x >= 0, x < d) for x, d in zip(I, R)] + [z3.And(x >= 0, x < d) for x, d in zip(J, R)]
    c.prove('lemma: rank in 0..product-1', z3.Implies(z3.And(*rng), z3.And(lin(R, I) >= 0, lin(R, I) <= size(R) - 1)))
    c.prove('lemma: rank injective', z3.Implies(z3.And(lin(R, I) == lin(R, J), *rng), z3.And(*[x == y for x, y in zip(I, J)])))
    # onto: the mixed-radix digits of r are in range and have rank r
    r = z3.Int('r')
    rest = r
    digs = []
    for k in reversed(range(n)):
        digs.append(rest % R[k])
        rest = rest / R[k]
    digs = digs[::-1]
    if size(R) <= 40:
        c.prove('lemma: rank onto', all(any(lin(R, t) == q for t in itertools.product(*[range(d) for d in R])) for q in range(size(R))))


def scalar_contract(B):
    w, sgd = IT[B]
    fn = 'c05_scalar_' + B.replace(' ', '_')
    cpp = 'SX %s %s( %s i ) { LinearIndex< %s > const l = i; return linearIndex( l ); }' % (B, fn, B, B)

    def ens(c):
        c.prove('a linear index is its own linear index', raw(c.ret, w) == raw(c.a['i'], w))
    return Contract(fn, cpp, fn, [Int('i', w, sgd)], ens, ret={32: 'i32', 64: 'i64'}[w], title='linearIndex( LinearIndex< %s > )' % B,
                    targets='linearIndex( LinearIndex )')


def range_contract(R, B):
    fn = 'c05_range_%s_%s' % (tag(R), B.replace(' ', '_'))
    I = irange(R, B)
    cpp = 'SX void %s( void ) { env_i( %s::NUM_INDICES ); %s %s m{}; %s }' % (
        fn, I, ' '.join('env_i( %s::range( %d ) );' % (I, k) for k in range(len(R))), I,
        ' '.join('env_i( m.data[%d] );' % k for k in range(len(R))))

    def ens(c):
        got = [sg(a[0]) for _, a in c.trace]
        c.prove('number of indices, ranges and the default multi-index (got %s)' % got, got == [len(R)] + list(R) + [0] * len(R))
    return Contract(fn, cpp, fn, [], ens, title=I, targets='MultiIndexRange::range, NUM_INDICES', nsamples=1)


def fits(R, B):
    w, sgd = IT[B]
    return size(R) <= (1 << (w - (1 if sgd else 0))) - 1


def lit_ranges(hi):
    r = []
    for v in literals.extra(10, hi):
        r += [t for t in ((v,), (2, v), (v, 2), (2, v, 3)) if size(t) <= hi and t not in r]
    return r + [(2,) + (1,) * (v - 2) + (3,) for v in literals.extra(10, 20, 4)]


def C05(tier):
    cons = []
    for R in RANGES_T + lit_ranges(2 ** 31 - 1):
        for B in ('int', 'long', 'unsigned', 'unsigned long', 'long long'):
            if fits(R, B):
                cons.append(lin_contract(R, B, 'val'))
                cons.append(lin_contract(R, B, 'ref'))
                cons.append(range_contract(R, B))
    for R in RANGES_W + [R for R in lit_ranges(2 ** 62) if size(R) >= 2 ** 31]:
        for B in ('int', 'long', 'unsigned', 'unsigned long', 'long long'):
            if fits(R, B):
                cons += [lin_contract(R, B, 'val'), lin_contract(R, B, 'ref'), range_contract(R, B)]
    for R in RANGES_N:
        for B in ('signed char', 'unsigned char', 'short', 'unsigned short'):
            if fits(R, B) and size(R) * 2 > (1 << (IT[B][0] - (1 if IT[B][1] else 0))) - 1:
                cons += [lin_contract(R, B, 'val'), lin_contract(R, B, 'ref'), range_contract(R, B)]
    for B in ('int', 'long', 'unsigned', 'unsigned long'):
        cons.append(scalar_contract(B))
    return mkunits('c05', cons, 8, pre=PRE5)


# ---------------------------------------------------------------- C06
FR_Q = [(1,), (3,), (2, 3), (3, 2), (1, 4), (4, 1), (2, 3, 2), (3, 1, 2), (1, 2, 3), (3, 3, 3), (2, 2, 2, 2), (1, 2, 3, 2), (2, 1, 2, 1, 2)]
FR_T = FR_Q + [(5,), (8,), (5, 5), (7, 2), (4, 3, 2), (2, 3, 4), (4, 4, 4), (2, 3, 2, 3), (3, 2, 1, 2), (2, 2, 2, 2, 2), (2, 2, 1, 2, 1, 2), (13,), (3, 7), (9, 1, 3), (1, 1, 1, 1), (2, 2, 2, 2, 2, 2), (1, 2, 1, 1, 2, 1, 2), (2, 1, 1, 1, 2, 1, 1, 3), (1,) * 9 + (2,)]
FR_X = [(20,), (33,), (6, 6, 6), (3, 3, 3, 3), (2, 2, 2, 2, 2, 2, 2), (40, 3), (3, 40)]


BT = ('long', 'unsigned', 'unsigned long', 'long long', 'unsigned char', 'signed char', 'short', 'unsigned short')
NEAR = [((2147483647,), 'int, unsigned, long'), ((2147483647, 2), 'int, long'), ((2, 2147483647), 'int, unsigned'), ((4294967295,), 'unsigned, unsigned long'),
        ((3, 3000000000), 'long, unsigned'), ((4294967298, 2), 'long, unsigned long'), ((2, 5000000000), 'long'),
        ((127,), 'signed char'), ((255, 2), 'unsigned char'), ((2, 255), 'unsigned char'), ((32767,), 'short'), ((2, 65535), 'unsigned short')]


def forrange_contract(R, how, lo=0, B='int', near=False):
    """near: starts within 3 of the range (ranges too large to walk from zero)."""
    w, sgd = IT[B]
    n = len(R)
    fn = 'c06_%s_%s_%s_%s' % (how, tag(R), 'm' if lo < 0 else 'n' if near else 'z', B.replace(' ', '_'))
    I = 'MultiIndexRangeI< %s >' % ', '.join(map(str, R)) if B == 'int' else irange(R, B)
    ps = ', '.join('%s s%d' % (B, k) for k in range(n))
    ini = '%s m{ { %s } };' % (I, ', '.join('s%d' % k for k in range(n)))
    rec = 'env_call(); ' + ' '.join('env_i( i.data[%d] );' % k for k in range(n))
    if how == 'lambda':
        body = 'forRange( m, [&]( auto const & i ) { %s } );' % rec
    elif how == 'temp':
        body = 'forRange( m = %s{ { %s } }, []( auto const & i ) { %s } );' % (I, ', '.join('s%d' % k for k in range(n)), rec)
    else:
        # stateful functor: the caller's object is called, not copies of it
        body = '''struct F { long n = 0; void operator()( %s const & i ) { %s ++n; } } f; forRange( m, f ); env_call(); env_i( f.n );''' % (I, rec)
    cpp = 'SX void %s( %s ) { %s %s }' % (fn, ps, ini, body)
    top = (1 << (w - (1 if sgd else 0))) - 1
    args = [Int('s%d' % k, w, sgd, max(0, R[k] - 3) if near else lo, min(top, R[k] + (2 if lo < 0 else 0)), enum=True) for k in range(n)]

    def ens(c):
        st = [c.a['s%d' % k] for k in range(n)]
        want = list(itertools.product(*[range(s, r) for s, r in zip(st, R)]))
        got = calls(c.trace)
        if how == 'state':
            c.prove('the caller functor object counted every call', bool(got) and got[-1] == (len(want),))
            got = got[:-1]
        c.prove('visits exactly the multi-indices from %s in lexicographic order' % (tuple(st),), got == want)
    return Contract(fn, cpp, fn, args, ens, title='forRange( %s )' % I, targets='forRange, detail::forRangeHelper')


def calls(trace):
    out = []
    for nm, a in trace:
        if nm == 'env_call':
            out.append([])
        elif out and nm == 'env_i' and type(a[0]) is int:
            out[-1].append(sg(a[0]))
        else:
            return None
    return [tuple(x) for x in out]


def C06(tier):
    cons = []
    lit = [t for v in literals.extra(10, 40, 6) for t in ((v,), (2, v), (v, 2))]
    for R in (FR_T + FR_X if tier == 'thorough' else FR_T) + [t for t in lit if t not in FR_T + FR_X]:
        for how in ('lambda', 'state', 'temp') if tier == 'thorough' or size([r + 1 for r in R]) <= 250 else ('lambda',):
            cons.append(forrange_contract(R, how))
        for B in BT:
            if tier != 'quick' or size(R) <= 12:
                cons.append(forrange_contract(R, 'lambda', 0, B))
        n = 1
        for r in R:
            n *= r + 5
        if n <= (700 if tier == 'quick' else 3000):
            cons.append(forrange_contract(R, 'lambda', -2))
    for R, Bs in NEAR + [(t, 'int' if size(t) < 2 ** 31 else 'long') for v in literals.extra(41, 2 ** 62, 9) for t in ((v,), (2, v), (v, 2)) if v not in (2 ** 31 - 1,)]:
        for B in Bs.split(', '):
            cons.append(forrange_contract(R, 'lambda', 0, B, True))
    u = mkunits('c06', cons, 12, pre=PRE5)
    return u


# ---------------------------------------------------------------- C07
def for_contract(E, how, std):
    fn = 'c07_for_%d_%s' % (E, how)
    if how == 'arg':
        body = 'forSequence< %d >( [&]( auto const i ) { env_call(); env_i( decltype( i )::value ); env_i( i ); } );' % E
        k = 2
    elif how == 'tmpl':
        body = 'forSequence< %d >( T1_%s{} );' % (E, fn)
        k = 1
    elif how == 'tlambda':
        body = 'forSequence< %d >( [&]< int i >() { env_call(); env_i( i ); } );' % E
        k = 1
    elif how == 'state':
        body = 'T2_%s f; forSequence< %d >( f ); env_call(); env_i( f.n );' % (fn, E)
        k = 1
    elif how == 'const':
        body = 'T3_%s const f{}; forSequence< %d >( f );' % (fn, E)
        k = 1
    pre = '''struct T1_%s { template< int I > constexpr void operator()() const { env_call(); env_i( I ); } };
struct T2_%s { long n = 0; template< typename X > void operator()( X ) { env_call(); env_i( X::value ); ++n; } };
struct T3_%s { void operator()( int i ) const { env_call(); env_i( i ); } };
''' % (fn, fn, fn)
    cpp = pre + 'SX void %s( void ) { %s }' % (fn, body)

    def ens(c):
        got = calls(c.trace)
        want = [tuple([i] * k) for i in range(E)]
        if how == 'state':
            c.prove('the caller functor object counted every call', bool(got) and got[-1] == (E,))
            got = got[:-1] if got else got
        c.prove('called once for each of 0..%d in order' % (E - 1), got == want)
    return Contract(fn, cpp, fn, [], ens, title='forSequence< %d > (%s)' % (E, how), targets='forSequence, SequenceExpansion::staticFor',
                    nsamples=1)


def ret_contract(E):
    """The loop form returns the value of the last call (fold over the comma operator)."""
    fn = 'c07_forret_%d' % E
    cpp = 'SX int %s( int b ) { return forSequence< %d >( [&]( auto const i ) { return b ^ ( 16 * decltype( i )::value ); } ); }' % (fn, E)

    def ens(c):
        b = c.a['b']
        c.prove('functor result returned', raw(c.ret, 32) == (raw(b ^ (16 * (E - 1)), 32)))
    return Contract(fn, cpp, fn, [Int('b')], ens, ret='i32', title='forSequence< %d > value' % E, targets='SequenceExpansion::staticFor')


def nested_contract(E, how):
    fn = 'c07_nest_%s_%s' % (tag(E), how)
    n = len(E)
    es = ', '.join(map(str, E))
    rec = 'env_call(); ( env_i( decltype( i )::value ), ... );'
    if how == 'ends':
        body = 'forNestedSequence< %s >( [&]( auto const ... i ) { %s } );' % (es, rec)
    elif how == 'seq':
        body = 'forNestedSequence( std::integer_sequence< int, %s >{}, [&]( auto const ... i ) { %s } );' % (es, rec)
    elif how == 'state':
        body = 'T_%s f; forNestedSequence< %s >( f ); env_call(); env_i( f.n );' % (fn, es)
    elif how == 'stateseq':
        body = 'T_%s f; forNestedSequence( std::integer_sequence< int, %s >{}, f ); env_call(); env_i( f.n );' % (fn, es)
    pre = 'struct T_%s { long n = 0; template< typename ... X > void operator()( X ... i ) { env_call(); ( env_i( i ), ... ); ++n; } };\n' % fn
    cpp = pre + 'SX void %s( void ) { %s }' % (fn, body)

    def ens(c):
        got = calls(c.trace)
        want = list(itertools.product(*[range(e) for e in E]))
        if how.startswith('state'):
            c.prove('the caller functor object counted every call', bool(got) and got[-1] == (len(want),))
            got = got[:-1] if got else got
        c.prove('called once for every tuple, last dimension fastest', got == want)
    return Contract(fn, cpp, fn, [], ens, title='forNestedSequence< %s > (%s)' % (es, how),
                    targets='forNestedSequence, NestedSequenceExpansion::staticForNested', nsamples=1)


def exec_contract(E, how):
    fn = 'c07_exec_%d_%s' % (E, how)
    pre = ''
    args = []
    ret = 'i64'
    rt = 'long'
    rec = 'env_call(); ( env_i( decltype( a )::value ), ... );' if E else 'env_call();'
    if how == 'plain':
        ps = 'long x'
        body = 'return executeSequence< %d >( [&]( auto const ... a ) { %s return x ^ long( sizeof...( a ) ); } );' % (E, rec)
        args = [Int('x', 64)]
    elif how == 'args':
        ps = 'long x, double y, int * p'
        body = '''return executeSequence< %d >( [&]( long u, double v, int * q, auto const ... a ) { env_i( u ); env_d( v ); env_p( q ); %s return u ^ 5; }, x, y, p );''' % (E, rec)
        args = [Int('x', 64), FVal('y', 'd', -8, 8), In('p', 32, 1)]
    elif how == 'ref':
        ps = 'int * p, int * q'
        body = '''return executeSequence< %d >( [&]( auto & u, auto const & v, auto ... a ) { env_p( &u ); env_p( &v ); %s u = v; return 3; }, *p, std::as_const( *q ) );''' % (E, rec)
        args = [InOut('p', 32, 1), In('q', 32, 1)]
    elif how == 'tmpl':
        pre = 'struct T_%s { template< int ... A > long operator()() const { env_call(); ( env_i( A ), ... ); return 11 + sizeof...( A ); } };\n' % fn
        ps = 'long x'
        body = 'return x ^ executeSequence< %d >( T_%s{} );' % (E, fn)
        args = [Int('x', 64)]
    elif how == 'tmplargs':
        pre = 'struct T_%s { template< int ... A > long operator()( long u, int * q ) const { env_i( u ); env_p( q ); env_call(); ( env_i( A ), ... ); return u ^ 9; } };\n' % fn
        ps = 'long x, int * p'
        body = 'return executeSequence< %d >( T_%s{}, x, p );' % (E, fn)
        args = [Int('x', 64), In('p', 32, 1)]
    elif how == 'tlambda':
        ps = 'long x'
        body = 'return executeSequence< %d >( [&]< int ... a >( long u ) { env_i( u ); env_call(); ( env_i( a ), ... ); return u ^ 4; }, x );' % E
        args = [Int('x', 64)]
    elif how == 'state':
        pre = 'struct T_%s { long n = 0; template< typename ... A > long operator()( A ... a ) { env_call(); ( env_i( a ), ... ); return ++n; } };\n' % fn
        ps = 'long x'
        body = 'T_%s f; executeSequence< %d >( f ); executeSequence< %d >( f ); return x ^ f.n;' % (fn, E, E)
        args = [Int('x', 64)]
    elif how == 'move':
        pre = '''struct M_%s { int * p; explicit M_%s( int * q ): p( q ) {} M_%s( M_%s const & ) = delete; M_%s( M_%s && o ): p( o.p ) { o.p = nullptr; } };
''' % ((fn,) * 6)
        ps = 'int * p'
        body = '''return executeSequence< %d >( [&]( M_%s && m, auto ... a ) { env_p( m.p ); %s return 6L; }, M_%s( p ) );''' % (E, fn, rec, fn)
        args = [In('p', 32, 1)]
    cpp = pre + 'SX long %s( %s ) { %s }' % (fn, ps, body)

    def ens(c):
        M64 = 2 ** 64 - 1
        t = list(c.trace)
        x = c.a.get('x')
        lead = {'args': 3, 'ref': 2, 'tmplargs': 2, 'tlambda': 1, 'move': 1}.get(how, 0)
        h, t = t[:lead], t[lead:]
        c.prove('arguments passed', len(h) == lead)
        if len(h) != lead:
            return
        if how in ('args', 'tmplargs', 'tlambda'):
            c.same('first argument unchanged', h[0][1][0], raw(x, 64))
        if how == 'args':
            c.same('second argument unchanged', h[1][1][0], c.a['y'])
            c.ptr_is('third argument unchanged', h[2][1][0], 'p', 0)
        if how == 'tmplargs':
            c.ptr_is('second argument unchanged', h[1][1][0], 'p', 0)
        if how == 'ref':
            c.ptr_is('first argument by reference', h[0][1][0], 'p', 0)
            c.ptr_is('second argument by reference', h[1][1][0], 'q', 0)
            c.same('writes through the reference', c.o['p'][0], c.a['q'][0])
        if how == 'move':
            c.ptr_is('rvalue argument moved through', h[0][1][0], 'p', 0)
        got = calls(t)
        want = [tuple(range(E))] * (2 if how == 'state' else 1)
        c.prove('called exactly once with the indices 0..%d in order' % (E - 1), got == want)
        val = {'plain': lambda: x ^ E, 'args': lambda: x ^ 5, 'ref': lambda: 3, 'tmpl': lambda: x ^ (11 + E), 'tmplargs': lambda: x ^ 9,
               'tlambda': lambda: x ^ 4, 'state': lambda: x ^ 2, 'move': lambda: 6}[how]()
        c.prove('functor result returned', raw(c.ret, 64) == raw(val, 64))
    return Contract(fn, cpp, fn, args, ens, ret='i64', title='executeSequence< %d > (%s)' % (E, how),
                    targets='executeSequence, SequenceExpansion::execute', nsamples=3)


def C07(tier):
    cons = []
    hi = 18 if tier == 'quick' else 34
    for E in list(range(0, hi)) + [27, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300] + [v for v in literals.extra(18, 700) if v not in (27, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300)]:
        for how in ('arg', 'tmpl', 'state', 'const'):
            cons.append(for_contract(E, how, '17'))
        if E:
            cons.append(ret_contract(E))
        for how in ('plain', 'args', 'ref', 'tmpl', 'tmplargs', 'state', 'move'):
            cons.append(exec_contract(E, how))
    nests = [(1,), (3,), (2, 3), (3, 2), (1, 4), (2, 3, 4), (4, 3, 2), (3, 3, 3), (1, 2, 1), (2, 3, 2, 3), (1, 2, 3, 1), (2, 2, 2, 2, 2),
             (2, 0, 3), (0,), (2,), (8,), (17,), (33,), (130,), (257,), (1, 1), (6, 7), (9, 9), (2, 17), (17, 2), (3, 130), (130, 3), (16, 16), (5, 5, 5),
             (4, 1, 5), (1, 1, 1), (9, 2, 2), (2, 2, 9), (2, 9, 2), (7, 7, 7), (3, 2, 1, 4), (3, 3, 3, 3), (2, 3, 1, 2, 2), (2, 1, 2, 1, 2, 2), (2,) * 6,
             (0, 3), (3, 0)]
    nests += [t for v in literals.extra(10, 400, 9) for t in ((v,), (2, v), (v, 2)) if t not in nests]
    if tier == 'thorough':
        nests += [(2,) * 7, (2,) * 8, (3,) * 5, (20, 20), (10, 10, 10), (1000,), (4, 4, 4, 4), (5, 4, 3, 2, 1), (1, 2, 3, 4, 5), (2, 0), (0, 0), (1, 0, 1)]
    for E in nests:
        for how in ('ends', 'seq', 'state', 'stateseq'):
            cons.append(nested_contract(E, how))
            cons[-1].optional = 0 in E
    cons20 = [for_contract(E, how, '20') for E in (0, 1, 2, 5, 8) for how in ('tlambda', 'arg', 'state')]
    cons20 += [exec_contract(E, how) for E in (1, 2, 5, 8) for how in ('tlambda', 'args', 'ref', 'tmplargs')]
    cons20 += [nested_contract(E, how) for E in ((2, 3), (3, 2, 2), (1, 2, 3)) for how in ('ends', 'seq')]
    return mkunits('c07', cons, 8, pre=PRE7) + mkunits('c07s20', cons20, 1, pre=PRE7, std='20')


META = {
    'C05': dict(bound='82 range lists of 1-16 ranges, up to products at the limit of the base type; every signed and unsigned base type from 8 to 64 bits',
                assume=['every component in range and the product of the ranges fits the base type']),
    'C06': dict(bound='32 range lists of 1-10 ranges with extents up to 13 (thorough 39, up to 40); every start tuple from -2 (where listed) or 0 up to the range itself; nine base types; 12 ranges at the limit of their base type with every start within 3 of the range'),
    'C07': dict(bound='END 0..17 (thorough 0..33) and 12 larger values up to 300; 45 nests of 1-6 extents (thorough 57, up to 8 extents and 1000 tuples); a nest with a zero extent is required to make no call, not to compile; functors: generic lambda, template call operator, stateful, const, by reference, move-only arguments; C++17 and C++20'),
}
