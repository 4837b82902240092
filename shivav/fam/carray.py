"""C01-C04: CArray."""
import copy
import itertools
import random
import z3
from ..contract import Contract, Int, FVal, Buf, In, Out, InOut
from ..unit import Unit
from ..sym import fconst, NULL, FP, Ptr
from .. import poly as P
from .. import literals

PRE = '''#include "shiva/common/CArray.hpp"
using namespace shiva;
struct Rec { double a, b, c; };
struct Rec3 { unsigned char a[3]; };
enum EI : int {};
enum EU : unsigned char {};
enum EL : long {};
using Sub = CArrayNd< double, 2, 5 >;
using Ptr = double *;
'''
IT = {'int': (32, True), 'long': (64, True), 'unsigned': (32, False), 'unsigned long': (64, False), 'short': (16, True),
      'unsigned short': (16, False), 'signed char': (8, True), 'unsigned char': (8, False), 'long long': (64, True), 'char': (8, True), 'wchar_t': (32, True),
      'char16_t': (16, False), 'char32_t': (32, False), 'unsigned long long': (64, False)}
ET = {'double': 'd', 'float': 'f', 'int': 32, 'long': 64, 'short': 16, 'signed char': 8, 'unsigned char': 8,
      'Rec': 'd', 'Rec3': 8, 'Sub': 'd', 'Ptr': 64, 'long double': 'd', 'bool': 8}      # the last ones for addresses only
ES = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'short': 2, 'signed char': 1, 'unsigned char': 1,
      'Rec': 24, 'Rec3': 3, 'Sub': 80, 'Ptr': 8, 'long double': 16, 'bool': 1}
BIGELT = ['Rec', 'Rec3', 'Sub', 'Ptr', 'long double', 'bool']

SHAPES_Q = [(1,), (2,), (5,), (1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4), (1, 2, 3), (2, 1, 3), (2, 3, 1), (2, 3, 4),
            (4, 3, 2), (3, 3, 3), (2, 2, 3), (5, 1, 2), (2, 3, 2, 3), (1, 2, 3, 4), (4, 3, 2, 1), (3, 2, 4, 2), (2, 2, 2, 2, 2),
            (1, 3, 2, 2, 3), (3, 1, 2, 3, 2), (2, 1, 3, 1, 2, 2), (2, 3, 2, 1, 2, 3)]
SHAPES_T = SHAPES_Q + [(7,), (64,), (13, 11), (2, 5), (5, 2), (6, 7), (3, 4, 5), (5, 4, 3), (7, 2, 3), (3, 7, 2), (2, 3, 7), (8, 8, 8),
                       (2, 3, 4, 5), (5, 4, 3, 2), (3, 3, 3, 3), (2, 5, 3, 2), (3, 3, 2, 2, 3), (2, 3, 4, 2, 3), (1, 2, 1, 3, 1, 2),
                       (3, 2, 2, 3, 2, 2), (2, 2, 2, 2, 2, 2), (2, 2, 2, 2, 2, 2, 2)]


# thorough: also every shape of rank up to 4 with extents up to 3, of rank 5 with extents up to 2, and wider low ranks
SHAPES_X = SHAPES_T + [t for r in (1, 2, 3, 4) for t in itertools.product(range(1, 4), repeat=r) if t not in SHAPES_T] + \
    [t for t in itertools.product((1, 2), repeat=5) if t not in SHAPES_T] + [(n,) for n in range(8, 33)] + \
    [(a, b) for a in range(1, 7) for b in range(1, 7) if (a, b) not in SHAPES_T and max(a, b) > 3]

# address-only shapes: element numbers beyond every narrow integer type, up to the limit of int; no element storage is modelled
WIDE_Q = [(130,), (300,), (70000,), (2000000000,), (130, 2), (2, 130), (100, 7), (7, 100), (200, 200), (300, 300), (70, 500), (70000, 3),
          (3, 70000), (46340, 46340), (10, 20, 30), (2, 300, 300), (300, 2, 70), (60, 50, 40), (1200, 1300, 1000), (20, 20, 20, 20),
          (7, 6, 5, 4, 9), (300, 2, 3, 50), (10, 10, 10, 10, 10, 10), (3,) * 8, (2,) * 12]
WIDE_T = WIDE_Q + [(255,), (256,), (257,), (65535,), (65537,), (2147483647,), (128, 128), (256, 256), (2, 40000), (40000, 2), (65536, 32767),
                   (1, 2000000000), (2000000000, 1), (9, 1000, 9), (1000, 9, 9), (9, 9, 1000), (100, 100, 100, 100), (30, 40, 50, 60),
                   (5, 6, 7, 8, 9, 10), (20, 20, 20, 20, 20, 20), (4, 3, 2, 4, 3, 2, 4), (9, 8, 7, 6, 5, 4, 3, 2)]


def wide(tier):
    r = list(WIDE_T)
    for v in literals.extra(10, 2147483647):
        r += [t for t in ((v,), (2, v), (v, 2), (2, v, 3)) if size(t) < 1 << 31 and t not in r]
    for v in literals.extra(10, 20, 4):
        r.append((2,) + (1,) * (v - 3) + (2, 3))
    return r


def shapes(tier):
    r = list(SHAPES_X if tier == 'thorough' else SHAPES_T)
    for v in literals.extra(10, 80, 6):
        r += [t for t in ((v,), (2, v), (v, 2)) if t not in r]
    for v in literals.extra(10, 80, 3):
        if (2, v, 2) not in r:
            r.append((2, v, 2))
    return r


def size(s):
    n = 1
    for d in s:
        n *= d
    return n


def raw(v, w):
    return v & ((1 << w) - 1) if type(v) is int and isinstance(w, int) else v


def tag(s):
    return 'x'.join(map(str, s))


def strides(s):
    out = []
    for k in range(len(s)):
        out.append(size(s[k + 1:]))
    return out


def lin(s, idx):
    """Row-major rank of an index tuple (ints or 64-bit terms)."""
    r = 0
    for st, i in zip(strides(s), idx):
        r = r + st * i
    return r


def arr(kind, T, s):
    d = ', '.join(map(str, s))
    if kind in ('own', 'cown'):
        return 'CArrayNd< %s, %s >' % (T, d)
    if kind == 'view':
        return 'CArrayViewNd< %s, %s >' % (T, d)
    return 'CArrayViewNd< %s const, %s >' % (T, d)


def bind(kind, T, s):
    """Declaration of 'a' (and const 'ca' for const access) over the storage 'buf'."""
    A = arr(kind, T, s)
    n = size(s)
    if kind == 'own':
        return '%s & a = *reinterpret_cast< %s * >( buf );' % (A, A)
    if kind == 'cown':
        return '%s const & a = *reinterpret_cast< %s const * >( buf );' % (A, A)
    if kind == 'view':
        return '%s a( *reinterpret_cast< %s (*)[%d] >( buf ) );' % (A, T, n)
    if kind == 'constview':
        return '%s const a( *reinterpret_cast< %s (*)[%d] >( buf ) );' % (A.replace(' const', ''), T, n)
    if kind == 'cview':
        return '%s a( *reinterpret_cast< %s const (*)[%d] >( buf ) );' % (A, T, n)
    raise KeyError(kind)


KINDS = ['own', 'cown', 'view', 'constview', 'cview']


def const_kind(k):
    return k in ('cown', 'constview', 'cview')


def idx_args(types, s, full=False):
    out = []
    for k, t in enumerate(types):
        w, sg = IT[t]
        if full:
            out.append(Int('i%d' % k, w, sg))
        else:
            hi = min(s[k] - 1, (1 << (w - 1 if sg else w)) - 1)
            out.append(Int('i%d' % k, w, sg, 0, hi))
    return out


def idx_params(types):
    return ', '.join('%s i%d' % (t, k) for k, t in enumerate(types))


def idx_use(s):
    return ', '.join('i%d' % k for k in range(len(s)))


def idx64(c, s):
    return [c.i64('i%d' % k) for k in range(len(s))]


def in_range(c, s, con=None):
    cs = []
    for k, d in enumerate(s):
        a = next(x for x in c.con.args if x.name == 'i%d' % k)
        v = c.a[a.name]
        if type(v) is int:
            if not 0 <= v < d:
                return z3.BoolVal(False)
            continue
        if a.signed:
            cs.append(z3.And(v >= 0, bvlt(v, d, True)))
        else:
            cs.append(bvlt(v, d, False))
    return z3.And(*cs) if cs else z3.BoolVal(True)


def bvlt(v, d, signed):
    w = v.size()
    if d >= (1 << (w - 1) if signed else 1 << w):
        return z3.BoolVal(True)
    return v < d if signed else z3.ULT(v, d)


def rank_lemmas(c, s):
    """Row-major rank of in-range tuples: inside the buffer and injective (independent of the code)."""
    if c.concrete:
        return
    n = len(s)
    i = [z3.BitVec('li%d' % k, 32) for k in range(n)]
    j = [z3.BitVec('lj%d' % k, 32) for k in range(n)]
    rng = [z3.And(x >= 0, x < d) for x, d in zip(i, s)] + [z3.And(x >= 0, x < d) for x, d in zip(j, s)]
    c.prove('lemma: row-major rank lies inside the buffer', z3.Implies(z3.And(*rng), z3.And(lin(s, i) >= 0, lin(s, i) < size(s))))
    c.prove('lemma: row-major rank is injective', z3.Implies(z3.And(lin(s, i) == lin(s, j), *rng),
                                                             z3.And(*[x == y for x, y in zip(i, j)])))


def types_for(k, n):
    """Deterministic choice of index types per shape."""
    names = ['int', 'long', 'unsigned', 'unsigned long', 'short', 'unsigned short', 'signed char', 'unsigned char']
    if k == 0:
        return ['int'] * n
    if k == 1:
        return ['unsigned long'] * n
    rng = random.Random('%d/%d' % (k, n))
    return [rng.choice(names) for _ in range(n)]


def ptr_contract(cid, kind, T, s, types, prefix='', access=None, title=None, full=False, lemma=False, opaque=False):
    fn = cid.replace('/', '_').replace('-', '_')
    acc = access or 'a( %s )' % idx_use(s)
    cpp = 'SX %s const * %s( %s * buf, %s ) { %s return &%s; }' % (T, fn, T, idx_params(types), bind(kind, T, s), acc)
    ib = [Buf('buf', ET[T], 1 if opaque else size(s), 'in', -8, 8)]

    def ens(c):
        r = in_range(c, s)
        if full:
            if c.status == 'abort':
                c.prove('handler only for an index out of range', z3.Not(r))
                c.prove('reported on standard error', any(e[1] == 'stderr' for e in c.events) or any(
                    e[0] == 'native' for e in c.events))
                if not c.concrete:
                    c.untouched('no element accessed before the handler', 'buf')
                return
            c.prove('returns only when every index is in range', r)
        c.ptr_is('address is the row-major position', c.ret, 'buf', ES[T] * lin(s, idx64(c, s)))
        c.untouched('address computation does not access elements', 'buf')
        c.prove('no diagnostic printed', not c.events)
        if lemma:
            rank_lemmas(c, s)
    return Contract(cid, cpp, fn, ib + idx_args(types, s, full), ens, ret='ptr', may_abort=full,
                    title=title or '&%s on %s' % (acc, arr(kind, T, s)),
                    targets='CArray::operator() / CArrayHelper::linearIndexHelper::eval, level')


def rw_contract(cid, kind, T, s, types, write, access=None, tgt='CArray::operator()'):
    fn = cid.replace('/', '_').replace('-', '_')
    acc = access or 'a( %s )' % idx_use(s)
    k = ET[T]
    fl = k in ('d', 'f')
    n = size(s)
    if write:
        cpp = 'SX void %s( %s * buf, %s, %s v ) { %s %s = v; }' % (fn, T, idx_params(types), T, bind(kind, T, s), acc)
        args = [InOut('buf', k, n, -8, 8)] + idx_args(types, s) + [FVal('v', k, -8, 8) if fl else Int('v', k, T != 'unsigned char')]
    else:
        cpp = 'SX %s %s( %s * buf, %s ) { %s return %s; }' % (T, fn, T, idx_params(types), bind(kind, T, s), acc)
        args = [In('buf', k, n, -8, 8)] + idx_args(types, s)
    for a in args:
        if isinstance(a, Int) and a.name.startswith('i'):
            a.enum = True

    def ens(c):
        idx = [c.a['i%d' % q] for q in range(len(s))]
        L = lin(s, idx)
        if write:
            for q in range(n):
                c.same('element %d holds %s' % (q, 'the written value' if q == L else 'its old value'), c.o['buf'][q],
                       raw(c.a['v'], k) if q == L else c.a['buf'][q])
        else:
            c.same('reads the row-major element', c.ret if c.concrete is False or fl else raw(c.ret, k), c.a['buf'][L])
    r = Contract(cid, cpp, fn, args, ens, ret='void' if write else ('d' if k == 'd' else 'f' if k == 'f' else
                                                                       {32: 'i32', 64: 'i64'}.get(k, 'i32')),
                    title='%s %s on %s' % ('write' if write else 'read', acc, arr(kind, T, s)), targets=tgt)
    r.raw = True
    return r


def static_contract(cid, kind, T, s):
    """Compile-time indices: every tuple."""
    fn = cid.replace('/', '_').replace('-', '_')
    tup = list(itertools.product(*[range(d) for d in s]))
    body = ' '.join('env_p( &a.template operator()< %s >() );' % ', '.join(map(str, t)) for t in tup)
    some = tup if len(tup) <= 16 else tup[:4] + tup[len(tup) // 2:len(tup) // 2 + 4] + tup[-4:]
    body += ' ' + ' '.join('env_p( &a( %s ) );' % ', '.join('std::integral_constant< int, %d >{}' % i for i in t) for t in some)
    cpp = 'SX void %s( %s * buf ) { %s %s }' % (fn, T, bind(kind, T, s), body)

    def ens(c):
        c.prove('one address per tuple', len(c.trace) == len(tup) + len(some))
        for t, (nm, ar) in zip(tup + some, c.trace):
            c.ptr_is('compile-time index %s is the row-major position' % (t,), ar[0], 'buf', ES[T] * lin(s, t))
        c.untouched('address computation does not access elements', 'buf')
    return Contract(cid, cpp, fn, [In('buf', ET[T], size(s), -8, 8)], ens, title='compile-time access on %s' % arr(kind, T, s),
                    targets='CArray::operator()<...> / linearIndexHelper::eval<...>', nsamples=1)


def other_index_contracts(pre, full):
    """Index arguments of the remaining integer-like types: character types, unscoped enumerations, bool."""
    cons = []
    for s in ((3,), (2, 3), (100, 2), (2, 2, 2), (1, 2), (300,), (40, 50)):
        n = len(s)
        for q, t in enumerate(('char', 'wchar_t', 'char16_t', 'char32_t', 'unsigned long long', 'long long')):
            kind = KINDS[(q + n) % 5]
            if not full or t != 'unsigned long long' or True:
                cons.append(ptr_contract('%s/ty/%s/%s/%s' % (pre, t.replace(' ', '_'), tag(s), kind), kind, ELT[q], s, [t] * n, full=full, opaque=True))
        for q, (e, t) in enumerate((('EI', 'int'), ('EU', 'unsigned char'), ('EL', 'long'))):
            kind = KINDS[(q + n + 2) % 5]
            acc = 'a( %s )' % ', '.join('%s( i%d )' % (e, k) for k in range(n))
            cons.append(ptr_contract('%s/enum/%s/%s/%s' % (pre, e, tag(s), kind), kind, ELT[q + 1], s, [t] * n, full=full, opaque=True, access=acc))
        if max(s) <= 3:
            acc = 'a( %s )' % ', '.join('bool( i%d )' % k for k in range(n))
            c = ptr_contract('%s/bool/%s' % (pre, tag(s)), 'own', 'double', s, ['int'] * n, full=full, opaque=True, access=acc)
            for k, a in enumerate(x for x in c.args if isinstance(x, Int)):
                a.lo, a.hi = 0, 1 if full else min(1, s[k] - 1)
            cons.append(c)
    for q, s in enumerate(((4,), (3, 5), (2, 3, 4), (300, 300), (7, 1, 2, 3), (50, 40, 60))):
        for v, T in enumerate(BIGELT):
            if size(s) * ES[T] < 1 << 31 and size(s) < 10 ** 6:
                kind = KINDS[(q + v) % 5]
                cons.append(ptr_contract('%s/elt/%s/%s/%s' % (pre, T.replace(' ', '_'), tag(s), kind), kind, T, s, types_for(q + v, len(s)), full=full, opaque=True))
    return cons


def linear_ct_contract(cid, s):
    """Compile-time index tuples of a large shape (corners, neighbours and a pseudo-random selection): the library's row-major rank."""
    fn = cid.replace('/', '_').replace('-', '_')
    rng = random.Random(cid)
    tup = {tuple(0 for _ in s), tuple(d - 1 for d in s), tuple(d // 2 for d in s)}
    for k, d in enumerate(s):
        for v in (1, 126, 127, 128, 254, 255, 256, 32766, 32767, 32768, 65535, 65536, d - 1):
            if v < d:
                tup.add(tuple(v if q == k else 0 for q in range(len(s))))
                tup.add(tuple(v if q == k else e - 1 for q, e in enumerate(s)))
    for _ in range(12):
        tup.add(tuple(rng.randrange(d) for d in s))
    tup = sorted(tup)
    ds = ', '.join(map(str, s))
    body = ' '.join('env_p( &a.template operator()< %s >() );' % ', '.join(map(str, t)) for t in tup)
    cpp = 'SX void %s( unsigned char * buf ) { %s %s }' % (fn, bind('cview', 'unsigned char', s), body)

    def ens(c):
        c.prove('one address per tuple', len(c.trace) == len(tup))
        for t, (nm, ar) in zip(tup, c.trace):
            c.ptr_is('compile-time index %s is the row-major position' % (t,), ar[0], 'buf', lin(s, t))
        c.untouched('address computation does not access elements', 'buf')
    return Contract(cid, cpp, fn, [In('buf', 8, 1)], ens, title='compile-time access on shape %s' % ds,
                    targets='CArray::operator()<...> / linearIndexHelper::eval<...>', nsamples=1)


def chunk(cons, n):
    return [cons[i::n] for i in range(n)]


def mkunits(name, cons, n, pre=PRE, **kw):
    return [Unit('%s_%d' % (name, i), cs, pre, **kw) for i, cs in enumerate(chunk(cons, n)) if cs]


def release(us, every):
    """The same wrappers in a release configuration (NDEBUG defined before any include): every 'every'-th contract."""
    out = []
    for u in us:
        cons = [copy.copy(c) for k, c in enumerate(u.contracts) if c.summary is not None or k % every == 0]
        if cons:
            v = Unit('rel_' + u.name, cons, '#define NDEBUG 1\n' + u.pre, u.std, u.bounds)
            v.ubsan = u.ubsan
            out.append(v)
    return out


ELT = ['double', 'float', 'int', 'long', 'unsigned char', 'short']


def C01(tier):
    units = []
    for bounds in (False, True):
        cons = []
        b = 'b' if bounds else 'n'
        for q, s in enumerate(shapes(tier)):
            for kn, kind in enumerate(KINDS):
                T = ELT[(q + kn) % len(ELT)]
                for v in range(3 if tier == 'quick' else 5):
                    ty = types_for(v if v < 2 else v + 10 * q + kn, len(s))
                    cons.append(ptr_contract('c01%s/ptr/%s/%s/%d' % (b, tag(s), kind, v), kind, T, s, ty, lemma=(v == 0 and kn == 0)))
                if size(s) <= (64 if tier == 'quick' else 256):
                    cons.append(static_contract('c01%s/ct/%s/%s' % (b, tag(s), kind), kind, T, s))
                if size(s) <= (40 if tier == 'quick' else 130):
                    ty = types_for(kn + q + 3, len(s))
                    if not const_kind(kind):
                        cons.append(rw_contract('c01%s/write/%s/%s' % (b, tag(s), kind), kind, T, s, ty, True))
                    if kind in ('own', 'cown', 'cview'):
                        cons.append(rw_contract('c01%s/read/%s/%s' % (b, tag(s), kind), kind, T, s, ty, False))
        for q, s in enumerate(wide(tier)):
            n = len(s)
            for kn, kind in enumerate(('own', 'cview') if q % 2 else ('view', 'cown')):
                T = ELT[(q + kn) % len(ELT)]
                tys = {'int': ['int'] * n, 'ul': ['unsigned long'] * n, 'narrow': ['signed char'] * n, 'short': ['short'] * n,
                       'uc': ['unsigned char'] * n, 'us': ['unsigned short'] * n, 'u': ['unsigned'] * n, 'long': ['long'] * n,
                       'mix': types_for(50 + q + kn, n)}
                for v, (nm, ty) in enumerate(tys.items()):
                    if tier == 'quick' and (v + q + kn) % 3 == 0 and nm not in ('ul', 'narrow'):
                        continue
                    if tier == 'quick' and bounds and (v + q) % 2:
                        continue
                    cons.append(ptr_contract('c01%s/wide/%s/%s/%s' % (b, tag(s), kind, nm), kind, T, s, ty, lemma=False, opaque=True))
            cons.append(linear_ct_contract('c01%s/widect/%s' % (b, tag(s)), s))
        cons += other_index_contracts('c01%s' % b, False)
        units += mkunits('c01%s' % b, cons, 8, bounds=bounds)
    return units


def C02(tier):
    cons = []
    for q, s in enumerate(shapes(tier)):
        for kn, kind in enumerate(KINDS):
            T = ELT[(q + kn) % len(ELT)]
            for v in range(2 if tier == 'quick' else 4):
                ty = types_for(v if v < 2 else v + 10 * q + kn, len(s)) if v else types_for(0, len(s))
                if v == 1:
                    ty = types_for(100 + 10 * q + kn, len(s))
                cons.append(ptr_contract('c02/paren/%s/%s/%d' % (tag(s), kind, v), kind, T, s, ty, full=True))
            acc = 'a' + ''.join('[ i%d ]' % k for k in range(len(s)))
            c = ptr_contract('c02/bracket/%s/%s' % (tag(s), kind), kind, T, s, ['int'] * len(s), full=True, access=acc)
            c.targets = 'CArray::operator[] / squareBracketOperatorHelper'
            cons.append(c)
            if len(s) >= 2 and kind in ('own', 'cview'):
                acc = 'a[ i0 ]( %s )' % ', '.join('i%d' % k for k in range(1, len(s)))
                c = ptr_contract('c02/mixed/%s/%s' % (tag(s), kind), kind, T, s, ['int'] + types_for(7 + q + kn, len(s) - 1),
                                 full=True, access=acc)
                c.targets = 'CArray::operator[] then operator()'
                cons.append(c)
    # every index type on its own, both accessors
    for t in IT:
        for s in ((3,), (2, 3), (1, 100), (2, 128), (200,), (300,)):
            if size(s) > 1 << (IT[t][0] - (1 if IT[t][1] else 0)):
                pass
            cons.append(ptr_contract('c02/type/%s/%s' % (t.replace(' ', '_'), tag(s)), 'own', 'unsigned char', s, [t] * len(s), full=True))
    for q, s in enumerate(wide(tier)):
        n = len(s)
        for kn, kind in enumerate(('own', 'cview') if q % 2 else ('view', 'cown')):
            T = ELT[(q + kn) % len(ELT)]
            for nm, ty in (('mix', types_for(60 + q + kn, n)), ('long', ['long'] * n), ('ul', ['unsigned long'] * n), ('sc', ['signed char'] * n)):
                cons.append(ptr_contract('c02/wide/%s/%s/%s' % (tag(s), kind, nm), kind, T, s, ty, full=True, opaque=True))
            acc = 'a' + ''.join('[ i%d ]' % k for k in range(n))
            cons.append(ptr_contract('c02/widebracket/%s/%s' % (tag(s), kind), kind, T, s, ['int'] * n, full=True, access=acc, opaque=True))
    cons += [guarded_rw(s, kind, T, w) for s in ((4,), (2, 3), (2, 2, 2)) for kind in ('own', 'view')
             for T, w in (('double', True), ('int', False), ('float', True))]
    cons += other_index_contracts('c02', True)
    for c in cons:
        c.nsamples = 8 if tier == 'quick' else 40
    us = mkunits('c02', cons, 12, bounds=True)
    return us + release(us, 8)


def guarded_rw(s, kind, T, write):
    """A whole access with unconstrained indices: abort leaves every element untouched."""
    fn = 'c02_rw_%s_%s_%s_%d' % (tag(s), kind, T, write)
    k = ET[T]
    fl = k in ('d', 'f')
    n = size(s)
    ty = ['long'] * len(s)
    if write:
        cpp = 'SX void %s( %s * buf, %s, %s v ) { %s a( %s ) = v; }' % (fn, T, idx_params(ty), T, bind(kind, T, s), idx_use(s))
        args = [InOut('buf', k, n, -8, 8)] + idx_args(ty, s, True) + [FVal('v', k, -8, 8) if fl else Int('v', k)]
    else:
        cpp = 'SX %s %s( %s * buf, %s ) { %s return a( %s ); }' % (T, fn, T, idx_params(ty), bind(kind, T, s), idx_use(s))
        args = [In('buf', k, n, -8, 8)] + idx_args(ty, s, True)

    def ens(c):
        r = in_range(c, s)
        if c.status == 'abort':
            c.prove('handler only for an index out of range', z3.Not(r))
            c.untouched('no element accessed before the handler', 'buf')
            if not c.concrete:
                for q in range(n):
                    c.same('element %d unchanged' % q, c.o['buf'][q], c.a['buf'][q])
            return
        c.prove('returns only when every index is in range', r)
        L = lin(s, idx64(c, s))
        for q in range(n):
            if c.concrete:
                hit = z3.simplify(L).as_long() == q if not isinstance(L, int) else L == q
            else:
                hit = c.ex.solver.check(L == q) == z3.sat and c.prove('index determined', L == q)
            if write:
                c.same('element %d' % q, c.o['buf'][q], raw(c.a['v'], k) if hit else c.a['buf'][q])
            elif hit:
                c.same('value read', raw(c.ret, k), c.a['buf'][q])
    r = Contract(fn, cpp, fn, args, ens, ret='void' if write else {'d': 'd', 'f': 'f', 32: 'i32'}[k], may_abort=True,
                    title='guarded access on %s' % arr(kind, T, s), targets='CArray::operator() with bounds check')
    r.raw = True
    return r


def slice_contract(cid, kind, T, s, k, bounds, opaque=False):
    """Slice with k leading brackets: extents, storage and elements of the remaining view."""
    fn = cid.replace('/', '_').replace('-', '_')
    br = ''.join('[ i%d ]' % q for q in range(k))
    rest = s[k:]
    ri = ', '.join('i%d' % q for q in range(k, len(s)))
    ext = ''.join('env_i( S::template extent< %d >() ); ' % q for q in range(len(rest)))
    cpp = '''SX void %s( %s * buf, %s ) { %s
  auto s = a%s; using S = decltype( s );
  env_i( S::rank() ); env_i( S::size() ); %s
  env_p( s.data() ); env_p( &s( %s ) ); auto const & cs = s; env_p( &cs( %s ) ); env_p( &s%s ); }''' % (
        fn, T, idx_params(['int'] * len(s)), bind(kind, T, s), br, ext, ri, ri, ''.join('[ i%d ]' % q for q in range(k, len(s))))

    def ens(c):
        t = c.trace
        c.prove('shape of the trace', len(t) == 2 + len(rest) + 4)
        if len(t) != 2 + len(rest) + 4:
            return
        want = [len(rest), size(rest)] + list(rest)
        for q, w in enumerate(want):
            c.prove('%s of the slice' % (['rank', 'size'] + ['extent %d' % e for e in range(len(rest))])[q], sg(t[q][1][0]) == w)
        idx = idx64(c, s)
        base = ES[T] * lin(s, list(idx[:k]) + [0] * len(rest))
        el = ES[T] * lin(s, idx)
        p = t[len(want):]
        c.ptr_is('slice aliases the parent storage', p[0][1][0], 'buf', base)
        c.ptr_is('slice element is the parent element', p[1][1][0], 'buf', el)
        c.ptr_is('const slice element is the parent element', p[2][1][0], 'buf', el)
        c.ptr_is('bracket on the slice is the parent element', p[3][1][0], 'buf', el)
        c.untouched('slicing does not access elements', 'buf')
    return Contract(cid, cpp, fn, [In('buf', ET[T], 1 if opaque else size(s), -8, 8)] + idx_args(['int'] * len(s), s), ens,
                    title='slice a%s of %s' % (br, arr(kind, T, s)), targets='CArray::operator[] / squareBracketOperatorHelper')


def sg(v):
    return v - (1 << 64) if isinstance(v, int) and v >> 63 else v


def C03(tier):
    units = []
    for bounds in (True, False):
        cons = []
        b = 'b' if bounds else 'n'
        for q, s in enumerate(shapes(tier)):
            for kn, kind in enumerate(KINDS):
                T = ELT[(q + kn) % len(ELT)]
                acc = 'a' + ''.join('[ i%d ]' % k for k in range(len(s)))
                c = ptr_contract('c03%s/chain/%s/%s' % (b, tag(s), kind), kind, T, s, ['int'] * len(s), access=acc, lemma=kn == 0)
                c.targets = 'CArray::operator[] / squareBracketOperatorHelper'
                cons.append(c)
                for k in range(1, len(s)):
                    cons.append(slice_contract('c03%s/slice%d/%s/%s' % (b, k, tag(s), kind), kind, T, s, k, bounds))
                if size(s) <= 40 and not const_kind(kind):
                    cons.append(rw_contract('c03%s/write/%s/%s' % (b, tag(s), kind), kind, T, s, ['int'] * len(s), True, acc,
                                            'CArray::operator[]'))
                    for k in range(1, len(s)):
                        acc2 = 'a' + ''.join('[ i%d ]' % q2 for q2 in range(k)) + '( %s )' % ', '.join(
                            'i%d' % q2 for q2 in range(k, len(s)))
                        if (q + kn + k) % 2 == 0 or tier == 'thorough':
                            cons.append(rw_contract('c03%s/write%d/%s/%s' % (b, k, tag(s), kind), kind, T, s, ['int'] * len(s), True,
                                                    acc2, 'CArray::operator[] slice then operator()'))
                if size(s) <= 40 and kind in ('cown', 'cview'):
                    cons.append(rw_contract('c03%s/read/%s/%s' % (b, tag(s), kind), kind, T, s, ['int'] * len(s), False, acc,
                                            'CArray::operator[] const'))
        for q, s in enumerate(wide(tier)):
            n = len(s)
            for kn, kind in enumerate(KINDS):
                T = ELT[(q + kn) % len(ELT)]
                acc = 'a' + ''.join('[ i%d ]' % k for k in range(n))
                cons.append(ptr_contract('c03%s/wide/%s/%s' % (b, tag(s), kind), kind, T, s, ['int'] * n, access=acc, opaque=True))
                for k in range(1, n):
                    if tier == 'thorough' or (k + q + kn) % (2 if n <= 4 else 4) == 0:
                        cons.append(slice_contract('c03%s/wideslice%d/%s/%s' % (b, k, tag(s), kind), kind, T, s, k, bounds, opaque=True))
        for q, s in enumerate(((4,), (3, 5), (2, 3, 4), (300, 300), (7, 1, 2, 3), (50, 40, 60))):
            n = len(s)
            for v, T in enumerate(BIGELT):
                if size(s) * ES[T] < 1 << 31 and size(s) < 10 ** 6:
                    kind = KINDS[(q + v + bounds) % 5]
                    acc = 'a' + ''.join('[ i%d ]' % k for k in range(n))
                    nm = '%s/%s/%s' % (T.replace(' ', '_'), tag(s), kind)
                    cons.append(ptr_contract('c03%s/elt/%s' % (b, nm), kind, T, s, ['int'] * n, access=acc, opaque=True))
                    for k in range(1, n):
                        cons.append(slice_contract('c03%s/eltslice%d/%s' % (b, k, nm), kind, T, s, k, bounds, opaque=True))
        units += mkunits('c03%s' % b, cons, 8, bounds=bounds)
    return units


def shape_contract(s, T):
    fn = 'c04_shape_%s_%s' % (tag(s), T.replace(' ', '_'))
    body = ''
    want = []
    for kind in KINDS:
        A = arr(kind, T, s)
        body += 'env_i( %s::rank() ); env_i( %s::size() ); ' % (A, A)
        want += [len(s), size(s)]
        for q, d in enumerate(s):
            body += 'env_i( %s::template extent< %d >() ); ' % (A, q)
            want.append(d)
    body += 'env_i( sizeof( %s ) / sizeof( %s ) ); ' % (arr('own', T, s), T)
    want.append(size(s))
    # the reported extents are usable as constants
    body += 'static_assert( %s::size() == %d && %s::rank() == %d, "" );' % (arr('own', T, s), size(s), arr('own', T, s), len(s)) \
        if False else ''
    cpp = 'SX void %s( void ) { %s }' % (fn, body)

    def ens(c):
        got = [sg(a[0]) for _, a in c.trace]
        c.prove('rank, size, extents and storage size are the declared ones (got %s)' % got, got == want)
    return Contract(fn, cpp, fn, [], ens, title='extents of %s' % arr('own', T, s), targets='CArray::rank, extent, size', nsamples=1)


def init_contract(s, T, k, how):
    A = arr('own', T, s)
    fn = 'c04_init_%s_%s_%d_%s' % (tag(s), T.replace(' ', '_'), k, how)
    kind = ET[T]
    fl = kind in ('d', 'f')
    n = size(s)
    ps = ['%s v%d' % (T, q) for q in range(k)]
    vs = ', '.join('v%d' % q for q in range(k))
    ini = {'brace': '{ %s }', 'paren': '( %s )'}[how] % vs
    if how == 'copybrace':
        ini = ''
    cpp = 'SX void %s( %s ) { new ( buf ) %s%s; }' % (fn, ', '.join(['%s * buf' % T] + ps), A, ini)
    args = [Out('buf', kind, n)] + [FVal('v%d' % q, kind, -8, 8) if fl else Int('v%d' % q, kind, True) for q in range(k)]

    def ens(c):
        for q in range(n):
            o = c.o['buf'][q]
            if q < k:
                c.same('position %d holds value %d' % (q, q), o, raw(c.a['v%d' % q], kind))
            else:
                c.same('position %d is zero' % q, o, fconst(0, kind) if fl else 0)
    r = Contract(fn, cpp, fn, args, ens, title='construction of %s from %d values' % (A, k), targets='CArray::CArray( U ... )')
    r.raw = True
    return r


def view_contract(s, T, kind, how, opaque=False):
    fn = 'c04_view_%s_%s_%s_%s' % (tag(s), T.replace(' ', '_'), kind, how)
    n = size(s)
    d = ', '.join(map(str, s))
    if kind == 'view':
        A, B = 'CArrayViewNd< %s, %s >' % (T, d), T
    else:
        A, B = 'CArrayViewNd< %s const, %s >' % (T, d), (T + ' const' if kind == 'cview' else T)
    src = 'reinterpret_cast< %s * >( buf )' % B if how == 'ptr' else '*reinterpret_cast< %s (*)[%d] >( buf )' % (B, n)
    z = ', '.join(['0'] * len(s))
    cpp = '''SX void %s( %s * buf ) { %s v( %s ); %s const & cv = v;
  env_p( v.data() ); env_p( cv.data() ); env_p( &v( %s ) ); env_p( &cv( %s ) ); auto w = v; env_p( w.data() ); }''' % (fn, T, A, src, A, z, z)

    def ens(c):
        c.prove('five addresses', len(c.trace) == 5)
        for (nm, a), what in zip(c.trace, ('data()', 'const data()', 'first element', 'const first element', 'data() of a copied view')):
            c.ptr_is('view: %s is the given storage' % what, a[0], 'buf', 0)
        c.untouched('constructing a view does not access elements', 'buf')
    return Contract(fn, cpp, fn, [In('buf', ET[T], 1 if opaque else n, -8, 8)], ens, title='%s over a buffer' % A, targets='CArray view constructors, data()',
                    nsamples=1)


def data_contract(s, T, opaque=False):
    A = arr('own', T, s)
    fn = 'c04_data_%s_%s' % (tag(s), T.replace(' ', '_'))
    cpp = '''SX void %s( %s * buf ) { %s & a = *reinterpret_cast< %s * >( buf ); %s const & ca = a;
  env_p( &a.data()[0] ); env_p( &ca.data()[0] ); env_p( &a.data()[%d] ); }''' % (fn, T, A, A, A, size(s) - 1)

    def ens(c):
        c.prove('three addresses', len(c.trace) == 3)
        for (nm, a), off in zip(c.trace, (0, 0, size(s) - 1)):
            c.ptr_is('data() is the storage itself', a[0], 'buf', off * ES[T])
        c.untouched('data() does not access elements', 'buf')
    return Contract(fn, cpp, fn, [In('buf', ET[T], 1 if opaque else size(s), -8, 8)], ens, title='data() of %s' % A, targets='CArray::data', nsamples=1)


def copy_contract(s, T, how):
    A = arr('own', T, s)
    fn = 'c04_copy_%s_%s_%s' % (tag(s), T.replace(' ', '_'), how)
    n = size(s)
    k = ET[T]
    if how == 'construct':
        body = 'new ( out ) %s( *reinterpret_cast< %s const * >( in ) );' % (A, A)
    else:
        body = '*reinterpret_cast< %s * >( out ) = *reinterpret_cast< %s const * >( in );' % (A, A)
    cpp = 'SX void %s( %s * out, %s const * in ) { %s }' % (fn, T, T, body)

    def ens(c):
        for q in range(n):
            c.same('element %d copied' % q, c.o['out'][q], c.a['in'][q])
    r = Contract(fn, cpp, fn, [Out('out', k, n), In('in', k, n, -8, 8)], ens, title='copy of %s' % A, targets='CArray copy')
    r.raw = True
    return r


def scalar_contract(T, form):
    """The aliases Scalar and ScalarView (one element, rank one)."""
    fn = 'c04_scalar_%s_%s' % (form, T.replace(' ', '_'))
    kind = ET[T]
    fl = kind in ('d', 'f')
    ct = form == 'cview'
    if form == 'own':
        A = 'Scalar< %s >' % T
        decl = 'auto & a = *new ( buf ) %s{ x };' % A
    else:
        A = 'ScalarView< %s%s >' % (T, ' const' if ct else '')
        decl = '%s a( *reinterpret_cast< %s%s (*)[1] >( buf ) );' % (A, T, ' const' if ct else '')
    cpp = '''SX void %s( %s * buf, %s x ) { %s %s const & ca = a; env_i( %s::rank() ); env_i( %s::size() ); env_i( %s::template extent< 0 >() );
  env_p( &a( 0 ) ); env_p( &ca( 0 ) ); env_p( &a[0] ); env_p( &ca[0] ); env_p( &a.data()[0] ); %s }''' % (
        fn, T, T, decl, A, A, A, A, '' if ct or form == 'own' else 'a( 0 ) = x;')

    def ens(c):
        c.prove('reports rank 1, size 1, extent 1 and five addresses', len(c.trace) == 8 and [a[0] for _, a in c.trace[:3]] == [1, 1, 1])
        for nm, a in c.trace[3:]:
            c.ptr_is('the element is the storage itself', a[0], 'buf', 0)
        if not ct:
            c.same('the element holds the value', c.o['buf'][0], raw(c.a['x'], kind))
    args = [In('buf', kind, 1, -8, 8) if ct else Out('buf', kind, 1), FVal('x', kind, -8, 8) if fl else Int('x', kind, True)]
    r = Contract(fn, cpp, fn, args, ens, title='%s' % A, targets='Scalar, ScalarView')
    r.raw = True
    return r


def C04(tier):
    cons = []
    for T in ELT:
        cons += [scalar_contract(T, f) for f in ('own', 'view', 'cview')]
    for q, s in enumerate(shapes(tier)):
        for T in (['double', 'unsigned char'] if tier == 'quick' else ELT):
            cons.append(shape_contract(s, T))
        T = ELT[q % len(ELT)]
        for T in ([T] if tier == 'quick' else ELT[:4]):
            n = size(s)
            ks = range(n + 1) if n <= 12 else [0, 1, 2, n - 1, n] if n <= 72 else [0, 1]
            for k in ks:
                for how in ('brace', 'paren'):
                    cons.append(init_contract(s, T, k, how))
            if n <= 128:
                cons.append(copy_contract(s, T, 'construct'))
                cons.append(copy_contract(s, T, 'assign'))
        for T in ('double', 'int'):
            for kind in ('view', 'cview', 'cviewm'):
                for how in ('array', 'ptr'):
                    cons.append(view_contract(s, T, kind, how))
            cons.append(data_contract(s, T))
    for q, s in enumerate(wide(tier)):
        for T in ('double', 'unsigned char', 'short'):
            cons.append(shape_contract(s, T))
        for kind in ('view', 'cview', 'cviewm'):
            for how in ('array', 'ptr'):
                cons.append(view_contract(s, ('double', 'int', 'unsigned char')[q % 3], kind, how, True))
        cons.append(data_contract(s, ('double', 'int', 'unsigned char')[q % 3], True))
    return mkunits('c04', cons, 8)


BOUND = ('array shapes of rank 1-7 with full storage (48 shapes quick; thorough also every shape of rank up to 4 with extents up to 3) and, for addresses, '
         '47 large shapes of rank 1-12 up to 2147483647 elements; owning/const/view element kinds, '
         'element types double, float and 8-64 bit integers, index types of 8-64 bits signed and unsigned incl. mixed')
META = {
    'C01': dict(bound=BOUND, assume=['index tuples in range (out of range: C02)']),
    'C02': dict(bound=BOUND + '; bounds checking enabled; indices unconstrained over their whole type',
                assume=['the bracket operator takes an int: conversions of a wider index happen in the caller before the call']),
    'C03': dict(bound=BOUND + '; bounds checking enabled and disabled'),
    'C04': dict(bound=BOUND + '; every number of initialisers up to 12 elements, then 0, 1, 2, size-1, size'),
}
