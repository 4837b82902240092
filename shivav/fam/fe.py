"""C12-C17, C21, C24, C25: tensor-product bases, parent elements, geometric mappings."""
import re
import copy
import itertools
import random
from fractions import Fraction
from ..contract import Contract, Int, FVal, Buf, In, Out, InOut, prod_s, sum_s
from ..unit import Unit
from ..sym import FP, S, U, ETA, Ptr, Unproved, up, tos, fconst
from .. import poly as P
from .. import literals
from .carray import mkunits, sg
from .numerics import (ES, FT, Basis, basis_contract, nodes, eval_consts, lag, kappa, tol1, spec1, atom1, tag1, helpers, CTY, TINY, fv, sub1, QD)

PRE = '''#include "shiva/functions/bases/LagrangeBasis.hpp"
#include "shiva/functions/bases/BasisProduct.hpp"
#include "shiva/functions/spacing/Spacing.hpp"
#include "shiva/functions/quadrature/Quadrature.hpp"
#include "shiva/geometry/shapes/NCube.hpp"
#include "shiva/geometry/shapes/InterpolatedShape.hpp"
#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
#include "shiva/geometry/mapping/LinearTransform.hpp"
#include "shiva/geometry/mapping/Scaling.hpp"
#include "shiva/geometry/mapping/UniformScaling.hpp"
#include "shiva/geometry/mapping/JacobianTransforms.hpp"
using namespace shiva;
'''


# absolute part of the tolerances: far below every result in the stated domains, above the underflow error
TT = {'d': 1e-280, 'f': 1e-40}


def ex2(v):
    """Power-of-two exponent of v as an identifier."""
    import math
    return str(round(math.log2(v))).replace('-', 'm')


def xbi(xb, i):
    """Bound on physical coordinate i (xb: one bound for all, or one for each)."""
    return xb[i] if isinstance(xb, tuple) else xb


def xbin(name, sh, xb):
    return In(name, sh.ty, sh.npts * sh.d, boxes=[(-float(xbi(xb, k % sh.d)), float(xbi(xb, k % sh.d))) for k in range(sh.npts * sh.d)])


def xbname(xb):
    return '_'.join(ex2(v) for v in xb) if isinstance(xb, tuple) else ex2(xb)


class Shape:
    """A tensor-product shape: one basis per direction, e.g. Shape('B1E2')."""
    def __init__(s, spec, ty='d'):
        s.bases = [Basis(a, int(n), ty) for a, n in re.findall(r'([A-Z])(\d+)', spec)]
        s.ty = ty
        s.d = len(s.bases)
        s.dims = [b.N for b in s.bases]
        s.name = spec + ty
        t = CTY[ty]
        bs = ', '.join(b.cpp for b in s.bases)
        s.kinds = {
            'BP': 'functions::BasisProduct< %s, %s >' % (t, bs),
            'IS': 'geometry::InterpolatedShape< %s, geometry::NCube< %s, %d, -1, 1, 1 >, %s >' % (t, t, s.d, bs),
            'PE': 'discretizations::finiteElementMethod::ParentElement< %s, geometry::NCube< %s, %d, -1, 1, 1 >, %s >' % (t, t, s.d, bs),
        }
        s.lt = 'geometry::LinearTransform< %s, %s >' % (t, s.kinds['IS'])
        s.tuples = list(itertools.product(*[range(n) for n in s.dims]))
        s.npts = len(s.tuples)

    def cost(s):
        return s.npts * s.d * 4


WIDE = ('B2', 'B1B2', 'B1B1B1')


def lit_line(hi, fmt='E%d'):
    """One-dimensional (or thin) shapes whose order comes from a constant of the source."""
    return [x for x in [fmt % v for v in literals.extra(10, hi, 3)] if x != 'E12']


def lit_box():
    """A coordinate box that contains twice every constant of the source, when the fixed boxes do not."""
    m = literals.magnitude()
    return [1 << (int(2 * m).bit_length())] if 512 < m < 2 ** 40 else []


def coords(sh, kind, x='x'):
    """Declaration of the coordinate object c of the given kind, filled from the buffer x."""
    t = CTY[sh.ty]
    if kind in ('arr', 'farr'):     # farr: single precision coordinates for a double precision element
        return '%s c[%d] = { %s };' % ('float' if kind == 'farr' else t, sh.d, ', '.join('%s[%d]' % (x, k) for k in range(sh.d)))
    if kind == 'init':
        return ''
    if kind == 'view':
        return '%s c0[%d] = { %s }; CArrayViewNd< %s, %d > const c( c0 );' % (t, sh.d, ', '.join('%s[%d]' % (x, k) for k in range(sh.d)), t, sh.d)
    return 'CArrayNd< %s, %d > c{ %s };' % (t, sh.d, ', '.join('%s[%d]' % (x, k) for k in range(sh.d)))


def cexpr(sh, kind):
    """The coordinate argument: the object c, or a braced list."""
    return '{ %s }' % ', '.join('x[%d]' % k for k in range(sh.d)) if kind == 'init' else 'c'


def dep_contracts(shapes, boxes=(1,), ders=(0, 1)):
    seen, out = set(), []
    for sh in shapes:
        for b in sh.bases:
            if b.name not in seen:
                seen.add(b.name)
                out += [basis_contract(b, i, der, B) for B in boxes for der in ders for i in range(b.N)]
    return out


def fe_unit(name, shapes, cons, std='17', bounds=True, boxes=(1,), pre='', ders=(0, 1)):
    bases = [b for sh in shapes for b in sh.bases]
    u = Unit(name, dep_contracts(shapes, boxes, ders) + cons, PRE + helpers(bases) + pre, std=std, bounds=bounds)
    u.cost = sum(sh.cost() for sh in shapes) * len(cons)
    return u


def phi(c, sh, tup, xs, B, d=None):
    """Specification of the tensor-product basis value (or partial derivative d)."""
    return prod_s(spec1(c, b, i, 1 if k == d else 0, xs[k], B) for k, (b, i) in enumerate(zip(sh.bases, tup)))


def ijk(t):
    return ','.join(map(str, t))


# ---------------------------------------------------------------- C12
def product_contract(sh, kind, ck, B, sfx=''):
    fn = 'tp_%s_%s_%s_%d%s' % (sh.name, kind, ck, B, sfx)
    t = CTY[sh.ty]
    T = sh.kinds[kind]
    d = sh.d
    w = 1 + d
    body = []
    for n, tup in enumerate(sh.tuples):
        i = ', '.join(map(str, tup))
        body.append('  out[%d] = T::template value< %s >( %s ); { auto const g = T::template gradient< %s >( %s ); %s }' % (
            n * w, i, cexpr(sh, ck), i, cexpr(sh, ck), ' '.join('out[%d] = g( %d );' % (n * w + 1 + k, k) for k in range(d))))
    xt = 'f' if ck == 'farr' else sh.ty
    cpp = 'SX void %s( %s const * x, %s * out )\n{\n  using T = %s;\n  %s\n%s\n}' % (fn, CTY[xt], t, T, coords(sh, ck), '\n'.join(body))

    def ens(c):
        xs = c.a['x']
        for n, tup in enumerate(sh.tuples):
            sp = phi(c, sh, tup, xs, B)
            c.close('value of basis function (%s) is the product' % ijk(tup), c.o['out'][n * w], sp, 4 * d * U[sh.ty] * sp.M + TT[sh.ty])
            for k in range(d):
                sp = phi(c, sh, tup, xs, B, k)
                c.close('gradient component %d of basis function (%s)' % (k, ijk(tup)), c.o['out'][n * w + 1 + k], sp, 4 * d * U[sh.ty] * sp.M + TT[sh.ty])
    tg = {'BP': 'BasisProduct', 'IS': 'InterpolatedShape', 'PE': 'ParentElement'}[kind]
    return Contract(fn, cpp, fn, [In('x', xt, d, -B, B), Out('out', sh.ty, sh.npts * w)], ens, uses=[(tag1(B),), ()],
                    title='%s::value/gradient< %s >' % (tg, sh.name), targets='%s::value, %s::gradient' % (tg, tg))


def loop_contract(sh, kind, sfx=''):
    fn = 'tploop_%s_%s%s' % (sh.name, kind, sfx)
    T = sh.kinds[kind]
    cpp = 'SX void %s( )\n{\n  %s::supportLoop( [&] ( auto const ... i ) { ( env_i( decltype(i)::value ), ... ); env_call(); } ); %s\n}' % (
        fn, T, 'env_i( %s::numDims ); env_i( sizeof( typename %s::CoordType ) );' % (T, T))

    def ens(c):
        got = [(n, sg(a[0]) if a else None) for n, a in c.trace]
        want = []
        for tup in sh.tuples:
            want += [('env_i', i) for i in tup] + [('env_call', None)]
        want += [('env_i', sh.d), ('env_i', sh.d * {'d': 8, 'f': 4}[sh.ty])]
        c.prove('support loop visits every index tuple once, in order', got[:len(want)] == want and len(got) == len(want))
    return Contract(fn, cpp, fn, [], ens, title='%s::supportLoop' % kind, targets='BasisProduct::supportLoop, InterpolatedShape::supportLoop', nsamples=1)


def tp_units(shapes, kinds=('BP', 'IS', 'PE'), cks=('arr', 'CArray'), boxes=(1,), std='17', bounds=True, loops=True, pfx='c12'):
    us = []
    for sh in shapes:
        ks = [k for k in kinds if k == 'BP' or sh.d <= 3]
        for B in boxes:
            cons = [product_contract(sh, k, ck, B) for k in ks for ck in cks]
            if loops and B == boxes[0]:
                cons += [loop_contract(sh, k) for k in ks if k != 'PE']
            us.append(fe_unit('%s_%s_%d_%s%s' % (pfx, sh.name, B, std, '' if bounds else 'nb'), [sh], cons, std, bounds, boxes=(B,)))
    return us


S1 = ['B1', 'B2', 'B4', 'E2', 'L1', 'E5']
S2 = ['B1B1', 'B1B2', 'E2B3', 'L1L2', 'B4E1']
S3 = ['B1B1B1', 'B1B2B3', 'E1L2B2', 'B2B2B2', 'L3E2B1', 'B3B3B3']
S4 = ['B1B1B1B1', 'B1E2L1B2']
# higher orders and more directions
H1 = ['B3', 'B5', 'B6', 'B7', 'B8', 'E1', 'E3', 'E4', 'E6', 'E7', 'E8', 'E9', 'L2', 'L3']
H2 = ['B5B3', 'E6L1', 'B8B1', 'B1B8', 'E3E4', 'L3L3', 'B6B6', 'E2E2', 'B2B7', 'E9B1']
H3 = ['B4B4B4', 'E4B1L3', 'B5B1E2', 'B1B6B1', 'E2E2E2', 'L2L2L2', 'B1B1B8', 'E7B1B1', 'B2B1B1', 'E1E3E5']
H4 = ['B2B1E1L3', 'B2B2B2B2', 'E1B3B1B2']
H5 = ['B1B1B1B1B1', 'B1E2B1L1B2']


def C12(tier):
    d = [Shape(s) for s in S1 + S2 + S3 + S4]
    f = [Shape(s, 'f') for s in ('B2', 'E3', 'B1B2', 'L2E1', 'B1B1B1', 'B1B2E3', 'B1E2L1B2')]
    us = tp_units(d, boxes=(1,)) + tp_units(f, boxes=(1,))
    us += tp_units([Shape(s) for s in ('B2', 'E2B3', 'E1L2B2')] + [Shape('B1B2E3', 'f')], boxes=(4,), loops=False)
    us += tp_units([Shape(s) for s in ('B1', 'E3', 'B1B2', 'E2B3', 'B1B1B1', 'E1L2B2', 'B1B1B1B1')] + [Shape('B1B1B1', 'f')], boxes=(1 << 10,), loops=False, pfx='c12w')
    us += [u for B in lit_box() for u in tp_units([Shape(s) for s in WIDE], boxes=(B,), loops=False, pfx='c12l')]
    us += tp_units([Shape(s) for s in H1 + H2 + H3 + H4 + H5 + ['E12', 'E10B1'] + lit_line(16)], boxes=(1,), pfx='c12t')
    # coordinates given as a braced list or as a view
    us += tp_units([Shape(s) for s in ('B1B2', 'E2B3', 'B1B1B1', 'E1L2B2', 'B1E2L1B2')] + [Shape('B1B2', 'f'), Shape('B1B2E3', 'f')], cks=('init', 'view'), loops=False, pfx='c12i')
    us += tp_units([Shape(s) for s in ('B2', 'B1B2', 'E1L2B2')], cks=('farr',), loops=False, pfx='c12s')
    if tier == 'thorough':
        us += tp_units([Shape(s) for s in S1 + S2 + S3[:5]], boxes=(4, 16), loops=False, pfx='c12u')
        us += tp_units([Shape(s, 'f') for s in S1 + S2 + S3[:5]], boxes=(4,), loops=False, pfx='c12v')
    return us



# ---------------------------------------------------------------- C13
def field_contract(sh, vk, B, sfx='', fb=8):
    fn = 'fld_%s_%s_%d%s' % (sh.name, vk, B, sfx)
    t = CTY[sh.ty]
    vt = sh.ty if vk != 'other' else 'f' if sh.ty == 'd' else 'd'      # 'other': nodal values of the other floating point type
    ft = CTY[vt]
    d, N = sh.d, sh.npts
    dims = ', '.join(map(str, sh.dims))
    if vk in ('CArray', 'other'):
        decl = 'CArrayNd< %s, %s > v; for ( int k = 0; k < %d; ++k ) v.data()[k] = f[k]; auto const & var = v;' % (ft, dims, N)
        post = 'for ( int k = 0; k < %d; ++k ) after[k] = v.data()[k];' % N
    elif vk in ('view', 'cview'):
        decl = '%s cf[%d]; for ( int k = 0; k < %d; ++k ) cf[k] = f[k]; CArrayViewNd< %s%s, %s > const var( cf );' % (t, N, N, t, ' const' if vk == 'cview' else '', dims)
        post = 'for ( int k = 0; k < %d; ++k ) after[k] = cf[k];' % N
    else:   # a callable that is not an array
        decl = ('auto const var = [f] ( auto ... i ) { int const ix[%d] = { int( i )... }; int const n[%d] = { %s }; int p = 0; '
                'for ( int k = 0; k < %d; ++k ) p = p * n[k] + ix[k]; return f[p]; };') % (d, d, dims, d)
        post = 'for ( int k = 0; k < %d; ++k ) after[k] = f[k];' % N
    cpp = '\n  '.join([
        'SX void %s( %s const * x, %s const * f, %s * out, %s * after, %s * cafter )\n{' % (fn, t, ft, t, ft, t),
        'using T = %s;' % sh.kinds['PE'], coords(sh, 'arr'), decl,
        'out[0] = T::value( c, var );', 'auto const g = T::gradient( c, var );',
        ' '.join('out[%d] = g( %d );' % (1 + k, k) for k in range(d)), post,
        ' '.join('cafter[%d] = c[%d];' % (k, k) for k in range(d))]) + '\n}'

    def ens(c):
        xs, f = c.a['x'], c.a['f']
        for k in range(-1, d):
            sp = sum_s(phi(c, sh, tup, xs, B, k if k >= 0 else None) * tos(f[n]) for n, tup in enumerate(sh.tuples))
            c.close('interpolated %s is the basis-weighted sum' % ('value' if k < 0 else 'gradient component %d' % k), c.o['out'][k + 1], sp,
                    4 * (d + N) * U[sh.ty] * sp.M + TT[sh.ty])
        for n in range(N):
            c.same('field entry %d unchanged' % n, c.o['after'][n], f[n])
        for k in range(d):
            c.same('coordinate %d unchanged' % k, c.o['cafter'][k], xs[k])
    return Contract(fn, cpp, fn, [In('x', sh.ty, d, -B, B), In('f', vt, N, -fb, fb), Out('out', sh.ty, 1 + d), Out('after', vt, N), Out('cafter', sh.ty, d)], ens,
                    uses=[(tag1(B),), ()], title='ParentElement::value/gradient of a field (%s)' % sh.name,
                    targets='ParentElement::value( coord, field ), ParentElement::gradient( coord, field )')


def fld_units(shapes, vks=('CArray', 'call'), B=1, std='17', bounds=True, pfx='c13', fb=8):
    return [fe_unit('%s_%s_%d_%s%s' % (pfx, sh.name, B, std, '' if bounds else 'nb'), [sh], [field_contract(sh, v, B, '' if fb == 8 else '_' + ex2(fb), fb) for v in vks], std, bounds, boxes=(B,))
            for sh in shapes]


def C13(tier):
    us = fld_units([Shape(s) for s in S1 + S2 + S3])
    us += fld_units([Shape(s, 'f') for s in ('B2', 'B1B2', 'L2E1', 'B1B1B1', 'B1B2E3')])
    us += fld_units([Shape(s) for s in ('E2', 'B1B2', 'E1L2B2', 'B1B1B1')], B=4)
    us += fld_units([Shape(s) for s in ('B2', 'B1B1', 'E1L2', 'B1B1B1', 'E1B1L1')] + [Shape('B1B1B1', 'f')], B=1 << 10, pfx='c13w')
    us += [u for B in lit_box() for u in fld_units([Shape(s) for s in WIDE], B=B, pfx='c13l')]
    us += fld_units([Shape(s) for s in S4 + ['B1B1B2B1', 'L1E2B1E1']], pfx='c13q') + fld_units([Shape('B1B1E1L1', 'f')], pfx='c13q')
    # nodal values of very small and very large magnitude
    for e in (-100, -30, 30, 100):
        us += fld_units([Shape(s) for s in ('B2', 'B1B2', 'B1B1B1')], vks=('CArray',), fb=2.0 ** e, pfx='c13e%s' % ex2(2.0 ** e))
    for e in (-30, 30):
        us += fld_units([Shape('B1B1', 'f')], vks=('CArray',), fb=2.0 ** e, pfx='c13e%s' % ex2(2.0 ** e))
    us += fld_units([Shape(s) for s in H1 + H2 + H3 + ['E12', 'E10B1'] + lit_line(16)], pfx='c13t')
    # nodal values in views and of the other floating point type
    us += fld_units([Shape(s) for s in ('B1', 'L3', 'B1B1', 'E1L2', 'B1B1B1', 'B1B2E3')], vks=('view', 'cview', 'other'), pfx='c13v')
    us += fld_units([Shape(s, 'f') for s in ('B2', 'B1B2', 'B1B1B1')], vks=('view', 'other'), pfx='c13v')
    if tier == 'thorough':
        us += fld_units([Shape(s, 'f') for s in S1 + S2 + S3[:5]], B=4, pfx='c13u')
    return us


# ---------------------------------------------------------------- C14
XB = 8


def fill_lt(sh, X='X'):
    return '%s t; for ( int k = 0; k < %d; ++k ) t.getData().data()[k] = %s[k]; %s const & ct = t;' % (sh.lt, sh.npts * sh.d, X, sh.lt)


def jac_tol(sh, sp):
    return 4 * (sh.d + sh.npts) * U[sh.ty] * sp.M + TT[sh.ty]


def jac_true(c, sh, xs, X, B):
    """J[i][j] = sum over support points of dN_a/dxi_j X_{a,i}."""
    d = sh.d
    g = [[phi(c, sh, tup, xs, B, j) for tup in sh.tuples] for j in range(d)]
    return [[sum_s(g[j][n] * tos(X[n * d + i]) for n in range(sh.npts)) for j in range(d)] for i in range(d)]


def jac_contract(sh, ck, B, form='out', sfx='', xb=XB):
    fn = 'jac_%s_%s_%s_%d%s' % (sh.name, ck, form, B, sfx)
    t = CTY[sh.ty]
    d, N = sh.d, sh.npts
    if form == 'out':
        call = 'typename %s::JacobianType jo; for ( int k = 0; k < %d; ++k ) jo.data()[k] = J[k]; geometry::utilities::jacobian( ct, %s, jo );' % (sh.lt, d * d, cexpr(sh, ck))
    else:
        call = 'auto const jo = geometry::utilities::jacobian( ct, %s );' % cexpr(sh, ck)
    xt = 'f' if ck == 'farr' else sh.ty
    cpp = '\n  '.join([
        'SX void %s( %s const * x, %s const * X, %s * J, %s * after )\n{' % (fn, CTY[xt], t, t, t),
        coords(sh, ck), fill_lt(sh), call,
        ' '.join('J[%d] = jo( %d, %d );' % (i * d + j, i, j) for i in range(d) for j in range(d)),
        'for ( int k = 0; k < %d; ++k ) after[k] = ct.getData().data()[k];' % (N * d)]) + '\n}'

    def ens(c):
        xs, X = c.a['x'], c.a['X']
        J = jac_true(c, sh, xs, X, B)
        for i in range(d):
            for j in range(d):
                c.close('J(%d,%d) is the derivative of position component %d along parent direction %d' % (i, j, i, j), c.o['J'][i * d + j], J[i][j],
                        jac_tol(sh, J[i][j]))
        for n in range(N * d):
            c.same('vertex datum %d unchanged' % n, c.o['after'][n], X[n])
    return Contract(fn, cpp, fn, [In('x', xt, d, -B, B), xbin('X', sh, xb), Out('J', sh.ty, d * d), Out('after', sh.ty, N * d)], ens,
                    uses=[(tag1(B),), ()], title='jacobian( LinearTransform< %s >, coords )' % sh.name,
                    targets='jacobian( LinearTransform, coords, J )' if form == 'out' else 'jacobian( cell, coords ) by value')


def qjac_contract(sh, q, n, qa, sfx=''):
    fn = 'qjac_%s_%s%d_%s%s' % (sh.name, q, n, ''.join(map(str, qa)), sfx)
    t = CTY[sh.ty]
    d, N = sh.d, sh.npts
    Q = '%s< %s, %d >' % (QD[q], t, n)
    hq = 'qc_' + fn
    cpp = 'SX void %s( %s * out ) { %s }\n' % (hq, t, ' '.join('out[%d] = %s::template coordinate< %d >();' % (k, Q, k) for k in range(n))) + '\n  '.join([
        'SX void %s( %s const * X, %s * J, %s * after )\n{' % (fn, t, t, t), fill_lt(sh),
        'typename %s::JacobianType jo; for ( int k = 0; k < %d; ++k ) jo.data()[k] = J[k];' % (sh.lt, d * d),
        'geometry::utilities::jacobian< %s, %s >( ct, jo );' % (Q, ', '.join(map(str, qa))),
        ' '.join('J[%d] = jo( %d, %d );' % (i * d + j, i, j) for i in range(d) for j in range(d)),
        'for ( int k = 0; k < %d; ++k ) after[k] = ct.getData().data()[k];' % (N * d)]) + '\n}'

    def ens(c):
        qx = eval_consts(c.con.mod, hq, n, sh.ty)
        xs = [fconst(qx[k], sh.ty) for k in qa]
        X = c.a['X']
        J = jac_true(c, sh, xs, X, 1)
        for i in range(d):
            for j in range(d):
                c.close('J(%d,%d) at quadrature point (%s)' % (i, j, ijk(qa)), c.o['J'][i * d + j], J[i][j], jac_tol(sh, J[i][j]))
        for k in range(N * d):
            c.same('vertex datum %d unchanged' % k, c.o['after'][k], X[k])
    return Contract(fn, cpp, fn, [In('X', sh.ty, N * d, -XB, XB), Out('J', sh.ty, d * d), Out('after', sh.ty, N * d)], ens,
                    title='jacobian< %s, %s >( LinearTransform< %s > )' % (Q, ijk(qa), sh.name), targets='jacobian< QUADRATURE, QA... >( LinearTransform, J )')


def jac_history_contract(sh, B=1, xb=XB):
    """One cell object used, copied, given other vertex data and used again at another coordinate."""
    fn = 'jachist_%s_%d' % (sh.name, B)
    t = CTY[sh.ty]
    d, N = sh.d, sh.npts
    if d == 3:
        n0, n1, n2 = sh.dims
        new = '%s l[%d][3]; %s t.setData( l );' % (t, N, ' '.join('for ( int i = 0; i < 3; ++i ) l[%d][i] = Y[%d + i];' % (a + n0 * (b + n1 * cc), 3 * n)
                                                                 for n, (a, b, cc) in enumerate(sh.tuples)))
    else:
        new = 'for ( int k = 0; k < %d; ++k ) t.getData().data()[k] = Y[k];' % (N * d)
    rd = lambda o: ' '.join('%s[%d] = jo( %d, %d );' % (o, i * d + j, i, j) for i in range(d) for j in range(d))
    cpp = '\n  '.join([
        'SX void %s( %s const * x, %s const * X, %s const * y, %s const * Y, %s * J, %s * K, %s * L )\n{' % ((fn,) + (t,) * 7),
        '%s c[%d], e[%d]; for ( int k = 0; k < %d; ++k ) { c[k] = x[k]; e[k] = y[k]; }' % (t, d, d, d), fill_lt(sh),
        'typename %s::JacobianType jo; geometry::utilities::jacobian( ct, c, jo ); %s' % (sh.lt, rd('J')),
        '%s const u( t ); %s' % (sh.lt, new),
        'geometry::utilities::jacobian( ct, e, jo ); %s' % rd('K'),
        '{ auto const jo = geometry::utilities::jacobian( u, c ); %s }' % rd('L') if d == 3 else 'geometry::utilities::jacobian( u, c, jo ); %s' % rd('L')]) + '\n}'

    def ens(c):
        first = jac_true(c, sh, c.a['x'], c.a['X'], B)
        second = jac_true(c, sh, c.a['y'], c.a['Y'], B)
        for o, what, J in (('J', 'first use', first), ('K', 'after new vertex data, at another coordinate', second), ('L', 'of the copy made before', first)):
            for i in range(d):
                for j in range(d):
                    c.close('J(%d,%d) %s' % (i, j, what), c.o[o][i * d + j], J[i][j], jac_tol(sh, J[i][j]))
    return Contract(fn, cpp, fn, [In('x', sh.ty, d, -B, B), xbin('X', sh, xb), In('y', sh.ty, d, -B, B), xbin('Y', sh, xb)] + [Out(o, sh.ty, d * d) for o in 'JKL'], ens,
                    uses=[(tag1(B),), ()], title='jacobian of a LinearTransform< %s > used, copied and given new data' % sh.name,
                    targets='jacobian( LinearTransform, coords, J ), LinearTransform copy, setData, getData')


def jac_units(shapes, B=1, std='17', bounds=True, pfx='c14', full=True, xb=XB):
    us = []
    for sh in shapes:
        cons = [jac_contract(sh, 'arr', B, xb=xb)]
        if full:
            cons.append(jac_contract(sh, 'CArray', B, xb=xb))
        if sh.d == 3:
            cons.append(jac_contract(sh, 'arr', B, 'val', xb=xb))
        us.append(fe_unit('%s_%s_%d_%s%s' % (pfx, sh.name, B, std, '' if bounds else 'nb'), [sh], cons, std, bounds, boxes=(B,)))
    return us


def qjac_units(specs, std='17', bounds=True, pfx='c14q'):
    return [fe_unit('%s_%s_%s%d_%s%s' % (pfx, sh.name, q, n, std, '' if bounds else 'nb'), [sh], [qjac_contract(sh, q, n, qa) for qa in qas], std, bounds)
            for sh, q, n, qas in specs]


def qtuples(n, d, all_=False):
    ts = list(itertools.product(range(n), repeat=d))
    return ts if all_ or len(ts) <= 8 else [tt for k, tt in enumerate(ts) if k % 5 == 1 or len(set(tt)) == d][:8]


def C14(tier):
    us = jac_units([Shape(s) for s in ('B1', 'B3', 'E2', 'B1B1', 'B1B2', 'E2B3', 'L2L1', 'B1B1B1', 'B2B2B2', 'E1L2B2', 'B1B2B3')])
    us += jac_units([Shape(s, 'f') for s in ('B2', 'B1B2', 'B1B1B1', 'E1B2B1')])
    us += jac_units([Shape(s) for s in ('B1', 'B1B2', 'B1B1B1', 'E1B2B1')], B=4)
    us += jac_units([Shape(s) for s in ('B2', 'B1B1', 'E1B2', 'B1B1B1', 'E1L1B1')] + [Shape('B1B1B1', 'f')], B=1 << 10, pfx='c14w')
    us += [u for B in lit_box() for u in jac_units([Shape(s) for s in WIDE], B=B, pfx='c14l')]
    # very small and very large cells
    for e in (-100, -20, 20, 100):
        us += jac_units([Shape(s) for s in ('B1B2', 'B1B1B1')], pfx='c14e%s' % ex2(2.0 ** e), xb=2.0 ** e, full=False)
    for e in ((0, -20, 20), (-100, 0, -30)):
        us += jac_units([Shape('B1B1B1')], pfx='c14e%s' % '_'.join(map(str, e)).replace('-', 'm'), xb=tuple(2.0 ** k for k in e), full=False)
    for e in (-20, 20):
        us += jac_units([Shape('B1B1B1', 'f')], pfx='c14e%s' % ex2(2.0 ** e), xb=2.0 ** e, full=False)
    us += [fe_unit('c14h_' + sh.name, [sh], [jac_history_contract(sh)]) for sh in [Shape(s) for s in ('B2', 'B1B1', 'E1B2', 'B1B1B1', 'B1E2B1', 'B1B1B1B1')] + [Shape('B1B1B1', 'f')]]
    q = []
    for s, qq, n in (('B1', 'L', 3), ('B1B1', 'L', 2), ('B1B2', 'B', 3), ('B1B1B1', 'L', 2), ('B1B1B1', 'B', 4), ('B1E2L1', 'L', 3), ('B2B2B2', 'B', 3)):
        q.append((Shape(s), qq, n, qtuples(n, len(s) // 2, tier == 'thorough')))
    for s, qq, n in (('B1B2', 'L', 3), ('B1B1B1', 'L', 2)):
        q.append((Shape(s, 'f'), qq, n, qtuples(n, len(s) // 2, tier == 'thorough')))
    us += qjac_units(q)
    us += [fe_unit('c14i_' + sh.name, [sh], [jac_contract(sh, ck, 1) for ck in ('init', 'view', 'farr')[:3 if sh.ty == 'd' else 2]]) for sh in (Shape('B1B2'), Shape('B1B2B1'), Shape('B1B1B1', 'f'))]
    us += jac_units([Shape(s) for s in ['B3B3B3', 'L3E2B1', 'B4B1E2'] + S4 + H1 + H2 + H3[:3] + H5[:1] + ['E12'] + [x for x in lit_line(14) if x != 'E12']], pfx='c14t')
    us += qjac_units([(Shape('B1B1B1B1'), 'L', 2, [(0, 1, 0, 1), (1, 0, 0, 1)]), (Shape('B1E2L1B2'), 'L', 3, [(0, 1, 2, 1), (2, 2, 0, 0)]),
                      (Shape('B1B2B3'), 'B', 5, [(0, 4, 2), (3, 1, 4)]), (Shape('E2B3'), 'B', 9, [(0, 8), (5, 2)]), (Shape('B4'), 'B', 7, [(k,) for k in range(7)])], pfx='c14r')
    if tier == 'thorough':
        us += jac_units([Shape(s, 'f') for s in ('B1B1B1', 'B2B2B2')], B=4, pfx='c14u')
    return us


# ---------------------------------------------------------------- C15, C17
def adj(J):
    """Adjugate of a 3x3 matrix of S values."""
    def m(r, k):
        rr = [x for x in range(3) if x != r]
        kk = [x for x in range(3) if x != k]
        return J[rr[0]][kk[0]] * J[rr[1]][kk[1]] - J[rr[0]][kk[1]] * J[rr[1]][kk[0]]
    neg = S(P.const(-1))
    return [[m(j, i) if (i + j) % 2 == 0 else neg * m(j, i) for j in range(3)] for i in range(3)]


def det3(J, A=None):
    A = A or adj(J)
    return J[0][0] * A[0][0] + J[0][1] * A[1][0] + J[0][2] * A[2][0]


def inv_close(c, J, inv, det, delta, ty, what='inverse'):
    """inv (machine) is adj(J)/det(J), det (machine) is det(J)."""
    A = adj(J)
    D = det3(J, A)
    lo = delta - (0 if c.concrete else D.E)
    c.close('determinant', det, D, 32 * U[ty] * D.M + TT[ty])
    R = c.recip(D, lo)
    for i in range(3):
        for j in range(3):
            M = A[i][j].M
            c.close('%s(%d,%d)' % (what, i, j), inv[i * 3 + j], A[i][j] * R, 64 * U[ty] * (M / lo + M * D.M / lo / lo) + TT[ty])


def mat_contract(kind, ty, B, delta, rows=(1.0, 1.0, 1.0), cols=(1.0, 1.0, 1.0)):
    """Entry (i,j) in the box B rows[i] cols[j] [-1,1]."""
    fn = 'inv3_%s%s_%s' % (kind, ty, '%d' % B if B >= 1 and B <= 1000 else 'e' + ex2(B))
    if rows != (1.0, 1.0, 1.0) or cols != (1.0, 1.0, 1.0):
        fn += '_g' + '_'.join(ex2(v) for v in rows + cols)
    t = CTY[ty]
    if kind == 'arr':
        body = ('%s a[3][3]; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) a[i][j] = m[3 * i + j]; mathUtilities::inverse( a, *det ); '
                'for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) m[3 * i + j] = a[i][j];') % t
    else:
        body = 'CArrayNd< %s, 3, 3 > a; for ( int k = 0; k < 9; ++k ) a.data()[k] = m[k]; mathUtilities::inverse( a, *det ); for ( int k = 0; k < 9; ++k ) m[k] = a.data()[k];' % t
    cpp = 'SX void %s( %s * m, %s * det ) { %s }' % (fn, t, t, body)

    def mat(c):
        return [[tos(c.a['m'][3 * i + j]) for j in range(3)] for i in range(3)]

    def facts(c):
        return [(det3(mat(c)).p, delta)]

    def ens(c):
        J = mat(c)
        inv_close(c, J, c.o['m'], c.o['det'][0], delta, ty)
        if not c.concrete:
            A, D = adj(J), det3(J)
            for i in range(3):
                for j in range(3):
                    z = D.p if i == j else {}
                    c.identity('lemma: (adjugate times matrix)(%d,%d) is det times identity, for all reals' % (i, j), sum_s(A[i][k] * J[k][j] for k in range(3)).p, z)
                    c.identity('lemma: (matrix times adjugate)(%d,%d) is det times identity, for all reals' % (i, j), sum_s(J[i][k] * A[k][j] for k in range(3)).p, z)
    return Contract(fn, cpp, fn, [InOut('m', ty, 9, boxes=[(-B * r * q, B * r * q) for r in rows for q in cols]), Out('det', ty, 1)], ens, facts=facts,
                    title='inverse( %s, det ), |entries| <= %g x %s x %s, |det| >= %g' % (kind, B, rows, cols, delta),
                    targets='mathUtilities::inverse( T (&)[3][3], T & )' if kind == 'arr' else 'mathUtilities::inverse( MATRIX_TYPE &, T & )', nsamples=30)


PRE17 = '#include "shiva/common/MathUtilities.hpp"\n#include "shiva/common/CArray.hpp"\nusing namespace shiva;\n'


def C17(tier):
    cons = []
    for kind in ('arr', 'CArray'):
        for ty, B, d in (('d', 1, 0.25), ('d', 8, 0.125), ('d', 1000, 1.0), ('f', 1, 0.5), ('f', 8, 1.0)) + (('d', 100, 2.0 ** -10), ('f', 2, 0.0625)):
            cons.append(mat_contract(kind, ty, B, d))
        # very small and very large matrices, rows and columns of very different magnitude
        for e in (-200, -80, -40, -17, -7, 20, 60, 200):
            cons.append(mat_contract(kind, 'd', 2.0 ** e, 2.0 ** (3 * e - 2)))
        for e in (-20, -10, -5, 8, 20):
            cons.append(mat_contract(kind, 'f', 2.0 ** e, 2.0 ** (3 * e - 1)))
        for ty in 'df':
            for r, q in (((1.0, 2.0 ** -8, 2.0 ** 8), (1.0, 1.0, 1.0)), ((1.0, 1.0, 1.0), (2.0 ** -10, 1.0, 4.0)), ((2.0 ** -6, 1.0, 1.0), (1.0, 2.0 ** 6, 1.0))):
                cons.append(mat_contract(kind, ty, 1.0, r[0] * r[1] * r[2] * q[0] * q[1] * q[2] / 2, r, q))
    return mkunits('c17', cons, 4, pre=PRE17)


def jbound(mod, sh, j, B, xb):
    r = 0.0
    for tup in sh.tuples:
        m = 1.0
        for k, (b, i) in enumerate(zip(sh.bases, tup)):
            m *= kappa(mod, b, i, int(k == j), B) + tol1(mod, b, i, int(k == j), B)
        r += m * xb
    return up(r * (1 + 1e-12))


def jtolbound(mod, sh, j, B, xb):
    """Tolerance of the jacobian contract, including that of the one-dimensional contracts it rests on."""
    E = 0.0
    for tup in sh.tuples:
        m, m0 = 1.0, 1.0
        for k, (b, i) in enumerate(zip(sh.bases, tup)):
            K, t = kappa(mod, b, i, int(k == j), B), tol1(mod, b, i, int(k == j), B)
            m *= K + t
            m0 *= K
        E += (m - m0) * 2 * xb + m * 1e-300
    return up((E + 4 * (sh.d + sh.npts) * U[sh.ty] * jbound(mod, sh, j, B, xb) * 1.01 + TT[sh.ty]) * 1.01)


def jatom(atoms, mod, sh, i, j, xs, X, B, xb):
    """The machine value of J(i,j) as a callee-result atom."""
    k = ('J', sh.name, i, j, tuple(x.key() for x in xs), tuple(v.key() for v in X))
    a = atoms.by.get(k)
    if a is None:
        M = up(jbound(mod, sh, j, B, xbi(xb, i)) + jtolbound(mod, sh, j, B, xbi(xb, i)))
        a = atoms.get(k, -M, M, sh.ty, None, None, 'J(%d,%d)' % (i, j))
    return a


def plain(ex, v, b):
    """v is exactly an input (or its negative) inside [-b,b]."""
    if not isinstance(v, FP) or v.E or len(v.p) != 1:
        return False
    mono, co = next(iter(v.p.items()))
    if len(mono) != 1 or mono[0][1] != 1 or abs(co) > 1:
        return False
    lo, hi = ex.box(mono[0][0])
    return -b <= lo and hi <= b


def jac_summary_contract(sh, ck, B, xb):
    """Contract of the run-time jacobian, usable at its call sites (the object layout is checked there)."""
    c0 = jac_contract(sh, ck, B, sfx='_s', xb=xb)
    d, N, es = sh.d, sh.npts, ES[sh.ty]
    t = CTY[sh.ty]
    symfn = c0.fn + '_sym'
    ct = '%s const (&c)[%d]' % (t, d) if ck == 'arr' else 'CArrayNd< %s, %d > const & c' % (t, d)
    c0.cpp = 'SX void %s( %s const & ct, %s, typename %s::JacobianType & j ) { geometry::utilities::jacobian( ct, c, j ); }\n' % (symfn, sh.lt, ct, sh.lt) + c0.cpp
    c0.symfn = symfn
    c0.tag = 'jac%s@%d' % (ck, B)

    def summary(ex, name, args):
        if len(args) != 3 or not all(isinstance(a, Ptr) and type(a.off) is int for a in args):
            return NotImplemented
        tp, xp, jp = args
        if tp.o.size != N * d * es or tp.off or xp.o.size != d * es or xp.off or jp.o.size != d * d * es or jp.off:
            return NotImplemented
        X = [ex.load(Ptr(tp.o, k * es), FT[sh.ty]) for k in range(N * d)]
        xs = [ex.load(Ptr(xp.o, k * es), FT[sh.ty]) for k in range(d)]
        if not all(plain(ex, v, xbi(xb, k % d)) for k, v in enumerate(X)) or not all(plain(ex, v, B) for v in xs):
            return NotImplemented
        for i in range(d):
            for j in range(d):
                a = jatom(ex.atoms, ex.mod, sh, i, j, xs, X, B, xb)
                ex.store(Ptr(jp.o, (i * d + j) * es), FP(P.atom(a.id), 0.0, max(abs(a.lo), abs(a.hi)), sh.ty), FT[sh.ty])
        return None
    c0.summary = summary
    return c0


def jspec(c, sh, xs, X, B, ck, xb):
    """3x3 specification of the Jacobian for C15: callee atoms when the jacobian contract is in use, else its true polynomial."""
    d = sh.d
    if ('jac%s@%d' % (ck, B)) in c.level and not c.concrete:
        out = []
        for i in range(d):
            row = []
            for j in range(d):
                a = jatom(c.atoms, c.con.mod, sh, i, j, xs, X, B, xb)
                row.append(S(P.atom(a.id), jtolbound(c.con.mod, sh, j, B, xbi(xb, i)), max(abs(a.lo), abs(a.hi))))
            out.append(row)
        return out
    return jac_true(c, sh, xs, X, B)


def cube_sampler(sh, xb):
    import numpy as np

    def s(rng):
        A = [[rng.uniform(-0.35, 0.35) + (0.5 * rng.choice((-1, 1)) if i == j else 0) for j in range(3)] for i in range(3)]
        rng.shuffle(A)
        X = []
        for tup in sh.tuples:
            xi = [(2.0 * tup[k] / (sh.dims[k] - 1) - 1) for k in range(3)]
            for i in range(3):
                v = sum(A[i][k] * xi[k] for k in range(3)) + rng.uniform(-0.1, 0.1)
                v = max(-1, min(1, v)) * xbi(xb, i)
                X.append(float(np.float32(v)) if sh.ty == 'f' else v)
        return {'X': X}
    return s


def invjac_contract(sh, ck, B, form, xb, delta):
    fn = 'invjac_%s_%s_%s_%d' % (sh.name, ck, form, B)
    t = CTY[sh.ty]
    d, N = sh.d, sh.npts
    if form == 'out':
        call = 'typename %s::JacobianType jo; for ( int k = 0; k < 9; ++k ) jo.data()[k] = J[k]; geometry::utilities::inverseJacobian( ct, %s, jo, *det );' % (sh.lt, cexpr(sh, ck))
    else:
        call = 'auto const r = geometry::utilities::inverseJacobian( ct, c ); *det = std::get< 0 >( r ); auto const & jo = std::get< 1 >( r );'
    cpp = '\n  '.join([
        'SX void %s( %s const * x, %s const * X, %s * J, %s * det, %s * after )\n{' % (fn, t, t, t, t, t), coords(sh, ck), fill_lt(sh), call,
        ' '.join('J[%d] = jo( %d, %d );' % (i * d + j, i, j) for i in range(d) for j in range(d)),
        'for ( int k = 0; k < %d; ++k ) after[k] = ct.getData().data()[k];' % (N * d)]) + '\n}'

    def facts(c):
        D = det3(jspec(c, sh, c.a['x'], c.a['X'], B, ck, xb))
        return [(D.p, delta - (0 if c.concrete else D.E))]

    def ens(c):
        J = jspec(c, sh, c.a['x'], c.a['X'], B, ck, xb)
        inv_close(c, J, c.o['J'], c.o['det'][0], delta, sh.ty, 'inverse Jacobian')
        for n in range(N * d):
            c.same('vertex datum %d unchanged' % n, c.o['after'][n], c.a['X'][n])
    return Contract(fn, cpp, fn, [In('x', sh.ty, d, -B, B), xbin('X', sh, xb), Out('J', sh.ty, d * d), Out('det', sh.ty, 1), Out('after', sh.ty, N * d)], ens,
                    facts=facts, uses=[('jac%s@%d' % (ck, B),), (tag1(B),)], sampler=cube_sampler(sh, xb), nsamples=12,
                    title='inverseJacobian( LinearTransform< %s > ) (%s)' % (sh.name, form),
                    targets='inverseJacobian( LinearTransform, coords, invJ, detJ )' if form == 'out' else 'inverseJacobian( cell, coords ) by value')


def invjac_history_contract(sh, xb, delta, B=1):
    """One cell object inverted, copied, given other vertex data and inverted again."""
    ck = 'arr'
    fn = 'invjachist_%s_%d' % (sh.name, B)
    t = CTY[sh.ty]
    d, N = sh.d, sh.npts
    rd = lambda o: ' '.join('%s[%d] = jo( %d, %d );' % (o, i * d + j, i, j) for i in range(d) for j in range(d))
    cpp = '\n  '.join([
        'SX void %s( %s const * x, %s const * X, %s const * Y, %s * J, %s * K, %s * L, %s * det )\n{' % ((fn,) + (t,) * 7), coords(sh, ck), fill_lt(sh),
        'typename %s::JacobianType jo; geometry::utilities::inverseJacobian( ct, c, jo, det[0] ); %s' % (sh.lt, rd('J')),
        '%s const u( t ); for ( int k = 0; k < %d; ++k ) t.getData().data()[k] = Y[k];' % (sh.lt, N * d),
        'geometry::utilities::inverseJacobian( ct, c, jo, det[1] ); %s' % rd('K'),
        '{ auto const r = geometry::utilities::inverseJacobian( u, c ); det[2] = std::get< 0 >( r ); auto const & jo = std::get< 1 >( r ); %s }' % rd('L')]) + '\n}'

    def facts(c):
        out = []
        for v in 'XY':
            D = det3(jspec(c, sh, c.a['x'], c.a[v], B, ck, xb))
            out.append((D.p, delta - (0 if c.concrete else D.E)))
        return out

    def ens(c):
        for k, (o, v, what) in enumerate((('J', 'X', 'first use: inverse'), ('K', 'Y', 'after new vertex data: inverse'), ('L', 'X', 'of the copy made before: inverse'))):
            inv_close(c, jspec(c, sh, c.a['x'], c.a[v], B, ck, xb), c.o[o], c.o['det'][k], delta, sh.ty, what)

    def smp(rng):
        s = cube_sampler(sh, xb)
        return {'X': s(rng)['X'], 'Y': s(rng)['X']}
    Y = xbin('Y', sh, xb)
    return Contract(fn, cpp, fn, [In('x', sh.ty, d, -B, B), xbin('X', sh, xb), Y] + [Out(o, sh.ty, 9) for o in 'JKL'] + [Out('det', sh.ty, 3)], ens,
                    facts=facts, uses=[('jac%s@%d' % (ck, B),)], sampler=smp, nsamples=8,
                    title='inverseJacobian of a LinearTransform< %s > used, copied and given new data' % sh.name,
                    targets='inverseJacobian( LinearTransform, coords, invJ, detJ ), LinearTransform copy')


def invjac_units(specs, std='17', bounds=True, pfx='c15', B=1):
    us = []
    for sh, xb, delta in specs:
        cons = [jac_summary_contract(sh, 'arr', B, xb), jac_summary_contract(sh, 'CArray', B, xb),
                invjac_contract(sh, 'arr', B, 'out', xb, delta), invjac_contract(sh, 'CArray', B, 'out', xb, delta), invjac_contract(sh, 'arr', B, 'val', xb, delta)]
        us.append(fe_unit('%s_%s_%s_%s_%s%s' % (pfx, sh.name, xbname(xb), ex2(delta), std, '' if bounds else 'nb'), [sh], cons, std, bounds, boxes=(B,)))
    return us


def C15(tier):
    sp = [(Shape('B1B1B1'), 2, 1.0), (Shape('B1B2B1'), 2, 1.0), (Shape('E2B1L1'), 2, 1.0), (Shape('B2B2B2'), 2, 1.0), (Shape('B1B1B1', 'f'), 1, 0.5)]
    # very small and very large cells
    sp += [(Shape('B1B1B1'), 2.0 ** (e + 1), 2.0 ** (3 * e)) for e in (-80, -40, -17, -7, 9, 20, 60)]
    sp += [(Shape('B1B1B1', 'f'), 2.0 ** e, 2.0 ** (3 * e - 1)) for e in (-10, -5, 8)]
    sp += [(Shape('B1B2B3'), 2, 1.0), (Shape('L2E1B1'), 2, 1.0), (Shape('L1E1B1', 'f'), 1, 0.5)]
    if tier == 'thorough':
        sp += [(Shape('B3B3B3'), 2, 1.0), (Shape('E3E3E3'), 2, 1.0)]
    # thin and long cells: one bound for each physical coordinate
    g = lambda *e: (tuple(2.0 ** (k + 1) for k in e), 2.0 ** sum(e))
    sp += [(Shape('B1B1B1'),) + g(*e) for e in ((0, 0, -20), (10, 0, -10), (-30, 20, -30))] + [(Shape('B1B1B1', 'f'),) + g(0, -6, 3)]
    # cells far from regular: determinant small for their size
    sp += [(Shape('B1B1B1'), 2, 2.0 ** -10), (Shape('B1B1B1'), 2.0 ** -9, 2.0 ** -50), (Shape('B1B2B1'), 2, 2.0 ** -14)]
    ini = [fe_unit('c15i_' + sh.name, [sh], [jac_summary_contract(sh, 'arr', 1, 2), invjac_contract(sh, 'init', 1, 'out', 2, 1.0)]) for sh in (Shape('B1B1B1'), Shape('E1B1B2'))]
    ini += [fe_unit('c15h_' + sh.name, [sh], [jac_summary_contract(sh, 'arr', 1, 2), invjac_history_contract(sh, 2, 1.0)]) for sh in (Shape('B1B1B1'), Shape('E2B1L1'))]
    return ini + invjac_units(sp) + invjac_units([(Shape('B1B1B1'), 2, 1.0), (Shape('B1E2B1'), 2, 1.0)], B=4, pfx='c15w')


# ---------------------------------------------------------------- C16
def scaling_contract(ty, exps, form):
    fn = 'scal_%s_%s' % (ty, form)
    cid = fn + '_' + '_'.join(str(e).replace('-', 'm') for e in exps)
    t = CTY[ty]
    T = 'geometry::Scaling< %s >' % t
    if form == 'out':
        call = ('typename {T}::JacobianType jo; for ( int k = 0; k < 3; ++k ) jo( k ) = J[k]; geometry::utilities::jacobian( cs, jo ); for ( int k = 0; k < 3; ++k ) J[k] = jo( k ); '
                'for ( int k = 0; k < 3; ++k ) jo( k ) = I[k]; geometry::utilities::inverseJacobian( cs, jo, *det ); for ( int k = 0; k < 3; ++k ) I[k] = jo( k );')
    else:
        call = ('auto const jo = geometry::utilities::jacobian( cs ); for ( int k = 0; k < 3; ++k ) J[k] = jo( k ); '
                'auto const r = geometry::utilities::inverseJacobian( cs ); *det = std::get< 0 >( r ); for ( int k = 0; k < 3; ++k ) I[k] = std::get< 1 >( r )( k );')
    cpp = '\n  '.join([
        'SX void %s( %s const * h, %s * J, %s * I, %s * det, %s * data )\n{' % (fn, t, t, t, t, t), '%s s; for ( int k = 0; k < 3; ++k ) data[k] = s.getData()[k];' % T,
        '%s hh[3] = { h[0], h[1], h[2] }; s.setData( hh ); %s const & cs = s;' % (t, T), call.replace('{T}', T),
        'for ( int k = 0; k < 3; ++k ) data[3 + k] = cs.getData()[k];',
        'for ( int k = 0; k < 3; ++k ) s.setData()[k] = 2 * h[k];', 'for ( int k = 0; k < 3; ++k ) data[6 + k] = cs.getData()[k];']) + '\n}'

    def ens(c):
        h = c.a['h']
        for k in range(3):
            sp = tos(h[k])
            c.close('Jacobian entry %d is exactly half the length' % k, c.o['J'][k], S(P.const(Fraction(1, 2))) * sp, 0.0)
            c.close('inverse entry %d is two over the length' % k, c.o['I'][k], S(P.const(2)) * c.recip(sp, 2.0 ** exps[k]), 4 * U[ty] * 2 / 2.0 ** exps[k])
            c.close('default length %d is one' % k, c.o['data'][k], 1, 0.0)
            c.same('stored length %d' % k, c.o['data'][3 + k], h[k])
            c.close('setData() exposes the stored length %d' % k, c.o['data'][6 + k], S(P.const(2)) * sp, 0.0)
        D = S(P.const(Fraction(1, 8))) * tos(h[0]) * tos(h[1]) * tos(h[2])
        c.close('determinant is the product of the Jacobian entries', c.o['det'][0], D, 6 * U[ty] * D.M)
    return Contract(cid, cpp, fn, [In('h', ty, 3, boxes=[(2.0 ** e, 2.0 ** (e + 1)) for e in exps]), Out('J', ty, 3), Out('I', ty, 3), Out('det', ty, 1), Out('data', ty, 9)], ens,
                    title='Scaling< %s > with lengths in [2^e,2^(e+1)], e = %s' % (t, exps),
                    targets='Scaling::setData/getData, jacobian( Scaling ), inverseJacobian( Scaling )' + ('' if form == 'out' else ', by-value overloads'))


def uniform_contract(ty, e, form):
    fn = 'unif_%s_%s' % (ty, form)
    cid = fn + '_' + str(e).replace('-', 'm')
    t = CTY[ty]
    T = 'geometry::UniformScaling< %s >' % t
    if form == 'out':
        call = ('typename {T}::JacobianType jo; jo( 0 ) = *J; geometry::utilities::jacobian( cs, jo ); *J = jo( 0 ); '
                'jo( 0 ) = *I; geometry::utilities::inverseJacobian( cs, jo, *det ); *I = jo( 0 );')
    else:
        call = ('auto const jo = geometry::utilities::jacobian( cs ); *J = jo( 0 ); '
                'auto const r = geometry::utilities::inverseJacobian( cs ); *det = std::get< 0 >( r ); *I = std::get< 1 >( r )( 0 );')
    cpp = '\n  '.join([
        'SX void %s( %s const * h, %s * J, %s * I, %s * det, %s * data )\n{' % (fn, t, t, t, t, t),
        '%s s; data[0] = s.getData(); s.setData( *h ); %s const & cs = s;' % (T, T), call.replace('{T}', T),
        'data[1] = cs.getData(); s.setData() = 2 * *h; data[2] = cs.getData();']) + '\n}'

    def ens(c):
        h = tos(c.a['h'][0])
        c.close('Jacobian is exactly half the length', c.o['J'][0], S(P.const(Fraction(1, 2))) * h, 0.0)
        c.close('inverse is two over the length', c.o['I'][0], S(P.const(2)) * c.recip(h, 2.0 ** e), 4 * U[ty] * 2 / 2.0 ** e)
        D = S(P.const(Fraction(1, 8))) * h * h * h
        c.close('determinant is the cube of the Jacobian', c.o['det'][0], D, 6 * U[ty] * D.M)
        c.close('default length is one', c.o['data'][0], 1, 0.0)
        c.same('stored length', c.o['data'][1], c.a['h'][0])
        c.close('setData() exposes the stored length', c.o['data'][2], S(P.const(2)) * h, 0.0)
    return Contract(cid, cpp, fn, [In('h', ty, 1, 2.0 ** e, 2.0 ** (e + 1)), Out('J', ty, 1), Out('I', ty, 1), Out('det', ty, 1), Out('data', ty, 3)], ens,
                    title='UniformScaling< %s > with length in [2^%d,2^%d]' % (t, e, e + 1),
                    targets='UniformScaling::setData/getData, jacobian( UniformScaling ), inverseJacobian( UniformScaling )' + ('' if form == 'out' else ', by-value overloads'))


def scaling_history_contract(ty, cls, e, f):
    """One scaling object used, copied, given another length and used again, through each accessor."""
    fn = 'shist_%s_%s' % (ty, cls)
    cid = fn + '_%d_%d' % (e, f)
    cid = cid.replace('-', 'm')
    t = CTY[ty]
    T = 'geometry::%s< %s >' % (cls, t)
    n = 3 if cls == 'Scaling' else 1
    fill = (lambda s: '{ %s a[3] = { %s[0], %s[1], %s[2] }; s.setData( a ); }' % (t, s, s, s)) if n == 3 else (lambda s: 's.setData( *%s );' % s)
    direct = 'for ( int k = 0; k < 3; ++k ) s.setData()[k] = g[k];' if n == 3 else 's.setData() = *g;'
    get = lambda o: 'for ( int k = 0; k < %d; ++k ) %s[k] = jo( k ); ' % (n, o)
    use = lambda s, k: 'geometry::utilities::jacobian( %s, jo ); %s geometry::utilities::inverseJacobian( %s, jo, det[%d] ); %s' % (s, get('(J + %d)' % (n * k)), s, k, get('(I + %d)' % (n * k)))
    cpp = '\n  '.join(['SX void %s( %s const * h, %s const * g, %s * J, %s * I, %s * det )\n{' % (fn, t, t, t, t, t), '%s s; %s const & cs = s; typename %s::JacobianType jo;' % (T, T, T),
                       fill('h'), use('cs', 0), '%s const u( s );' % T, direct, use('cs', 1), fill('h'), use('cs', 2), fill('g'), use('u', 3)]) + '\n}'

    def ens(c):
        for k, (v, ex) in enumerate((('h', e), ('g', f), ('h', e), ('h', e))):
            what = ('first use', 'after another length', 'after the first length again', 'of the copy')[k]
            hs = [tos(x) for x in c.a[v]]
            for i in range(n):
                c.close('Jacobian entry %d, %s' % (i, what), c.o['J'][k * n + i], S(P.const(Fraction(1, 2))) * hs[i], 0.0)
                c.close('inverse entry %d, %s' % (i, what), c.o['I'][k * n + i], S(P.const(2)) * c.recip(hs[i], 2.0 ** ex), 4 * U[ty] * 2 / 2.0 ** ex)
            D = S(P.const(Fraction(1, 8))) * hs[0] * hs[1 % n] * hs[2 % n]
            c.close('determinant, %s' % what, c.o['det'][k], D, 6 * U[ty] * D.M)
    bx = lambda a: [(2.0 ** a, 2.0 ** (a + 1))] * n
    return Contract(cid, cpp, fn, [In('h', ty, n, boxes=bx(e)), In('g', ty, n, boxes=bx(f)), Out('J', ty, 4 * n), Out('I', ty, 4 * n), Out('det', ty, 4)], ens,
                    title='%s< %s > used, copied and given another length' % (cls, t), targets='%s copy, setData, jacobian( %s ), inverseJacobian( %s )' % (cls, cls, cls))


def half_contract(ty, cls):
    """Half of any length, of either sign and over a wide box."""
    fn = 'half_%s_%s' % (ty, cls)
    t = CTY[ty]
    B = 1e300 if ty == 'd' else 1e37
    T = 'geometry::%s< %s >' % (cls, t)
    set_ = '%s hh[3] = { h[0], h[1], h[2] }; s.setData( hh );' % t if cls == 'Scaling' else 's.setData( h[0] );'
    n = 3 if cls == 'Scaling' else 1
    cpp = ('SX void %s( %s const * h, %s * J )\n{ %s s; %s typename %s::JacobianType jo; for ( int k = 0; k < %d; ++k ) jo( k ) = J[k]; '
           'geometry::utilities::jacobian( s, jo ); for ( int k = 0; k < %d; ++k ) J[k] = jo( k ); }') % (fn, t, t, T, set_, T, n, n)

    def ens(c):
        for k in range(n):
            c.close('Jacobian entry %d is half the length' % k, c.o['J'][k], S(P.const(Fraction(1, 2))) * tos(c.a['h'][k]), 4 * ETA[ty])
    return Contract(fn, cpp, fn, [In('h', ty, n, -B, B), Out('J', ty, n)], ens, title='%s jacobian, any finite length' % T, targets='jacobian( %s )' % cls)


def store_contract(ty, cls):
    """Lengths are stored and returned bit for bit, whatever they are, replacing whatever was stored before."""
    fn = 'store_%s_%s' % (ty, cls)
    t = CTY[ty]
    T = 'geometry::%s< %s >' % (cls, t)
    n = 3 if cls == 'Scaling' else 1
    if cls == 'Scaling':
        rd = 'for ( int k = 0; k < 3; ++k ) out[%d + k] = cs.getData()[k];'
        cpp = ('SX void %s( %s const * p, %s const * h, %s const * g, %s * out )\n{ %s s; %s const & cs = s; %s hp[3] = { p[0], p[1], p[2] }, hh[3] = { h[0], h[1], h[2] }; '
               's.setData( hp ); s.setData( hh ); %s for ( int k = 0; k < 3; ++k ) s.setData()[k] = g[k]; %s for ( int k = 0; k < 3; ++k ) out[6 + k] = hh[k]; }') % (
            fn, t, t, t, t, T, T, t, rd % 0, rd % 3)
    else:
        cpp = ('SX void %s( %s const * p, %s const * h, %s const * g, %s * out )\n{ %s s; %s const & cs = s; %s hh = *h; '
               's.setData( *p ); s.setData( hh ); out[0] = cs.getData(); s.setData() = *g; out[1] = cs.getData(); out[2] = hh; }') % (fn, t, t, t, t, T, T, t)

    def ens(c):
        for k in range(n):
            c.same('stored length %d' % k, c.o['out'][k], c.a['h'][k])
            c.same('length %d written through setData()' % k, c.o['out'][n + k], c.a['g'][k])
            c.same('source length %d unchanged' % k, c.o['out'][2 * n + k], c.a['h'][k])
    r = Contract(fn, cpp, fn, [In('p', ty, n, -8, 8), In('h', ty, n, -8, 8), In('g', ty, n, -8, 8), Out('out', ty, 3 * n)], ens, title='%s setData/getData, any bits' % T, targets='%s::setData, getData' % cls)
    r.raw = True
    return r


PRE16 = '#include "shiva/geometry/mapping/Scaling.hpp"\n#include "shiva/geometry/mapping/UniformScaling.hpp"\n#include "shiva/geometry/mapping/JacobianTransforms.hpp"\nusing namespace shiva;\n'


def C16(tier):
    cons = []
    es = [(0, 0, 0), (-10, 0, 10), (20, -20, 3), (5, 6, 7), (-1, -2, -3)]
    for ty in 'df':
        # every binade whose reciprocal and cube are normal numbers
        lo, hi = (-335, 335) if ty == 'd' else (-40, 41)
        rng = random.Random(ty)
        for form in ('out', 'val'):
            u = range(lo, hi + 1)
            cons += [uniform_contract(ty, e, form) for e in u]
            tr = set(es)
            for e in u:
                tr.add((e, rng.randint(lo, hi), rng.randint(lo, hi)))
                tr.add((rng.randint(-20, 20), e, rng.randint(-20, 20)))
                tr.add((rng.randint(-20, 20), rng.randint(-20, 20), e))
            cons += [scaling_contract(ty, e, form) for e in sorted(tr) if 3 * lo <= sum(e) <= 3 * hi]
        cons += [f(ty, k) for k in ('Scaling', 'UniformScaling') for f in (half_contract, store_contract)]
        cons += [scaling_history_contract(ty, k, e, f) for k in ('Scaling', 'UniformScaling') for e, f in ((0, 1), (-3, 5), (30, -30))]
    return mkunits('c16', cons, 8, pre=PRE16)


# ---------------------------------------------------------------- C24
def setdata_contract(sh, ck, sfx=''):
    fn = 'setdata_%s_%s%s' % (sh.name, ck, sfx)
    t = CTY[sh.ty]
    N = sh.npts
    n0, n1, n2 = sh.dims
    each = 'for ( int k = 0; k < %d; ++k ) for ( int i = 0; i < 3; ++i ) ' % N
    if ck == 'arr':
        src = '%s l[%d][3]; %s l[k][i] = X[3 * k + i]; %s const (&list)[%d][3] = l;' % (t, N, each, t, N)
        post = each + 'after[3 * k + i] = l[k][i];'
    else:
        src = 'CArrayNd< %s, %d, 3 > l; %s l( k, i ) = X[3 * k + i]; auto const & list = l;' % (t, N, each)
        post = each + 'after[3 * k + i] = l( k, i );'
    n3 = 3 * N
    cpp = '\n  '.join([
        'SX void %s( %s const * X, %s * out, %s * after, %s * out2, %s const * Y )\n{' % (fn, t, t, t, t, t),
        '%s t; %s const & ct = t;' % (sh.lt, sh.lt), 'for ( int k = 0; k < %d; ++k ) t.getData().data()[k] = out[k];' % n3, src, 't.setData( list );', post,
        '\n  '.join('for ( int i = 0; i < 3; ++i ) out[3 * ( %d ) + i] = ct.getData()( %s, i );' % (n, ', '.join(map(str, tup))) for n, tup in enumerate(sh.tuples)),
        'env_i( &t.getData() == &ct.getData() ); env_i( t.getData().size() ); env_i( ct.getData().data() == t.getData().data() );',
        'for ( int k = 0; k < %d; ++k ) t.getData().data()[k] = Y[k];' % n3, 'for ( int k = 0; k < %d; ++k ) out2[k] = ct.getData().data()[k];' % n3]) + '\n}'

    def ens(c):
        X = c.a['X']
        for n, (a, b, cc) in enumerate(sh.tuples):
            for i in range(3):
                c.same('component %d of support point (%d,%d,%d) is that of list entry a + n0 (b + n1 c)' % (i, a, b, cc), c.o['out'][3 * n + i], X[3 * (a + n0 * (b + n1 * cc)) + i])
        for k in range(n3):
            c.same('source entry %d unchanged' % k, c.o['after'][k], X[k])
            c.same('the mutable accessor reaches the storage the const one reads (%d)' % k, c.o['out2'][k], c.a['Y'][k])
        c.prove('accessors expose one storage of the right size', [sg(a[0]) for _, a in c.trace] == [1, n3, 1])
    r = Contract(fn, cpp, fn, [In('X', sh.ty, n3, -1000, 1000), InOut('out', sh.ty, n3, -1000, 1000), Out('after', sh.ty, n3), Out('out2', sh.ty, n3), In('Y', sh.ty, n3, -1000, 1000)], ens,
                    title='LinearTransform< %s >::setData/getData' % sh.name, targets='LinearTransform::setData, LinearTransform::getData')
    r.raw = True
    return r


def setdata_units(specs, std='17', bounds=True, pfx='c24'):
    us = []
    for s in specs:
        for ty in 'df':
            sh = Shape(s, ty)
            us.append(Unit('%s_%s_%s%s' % (pfx, sh.name, std, '' if bounds else 'nb'), [setdata_contract(sh, ck) for ck in ('arr', 'CArray')], PRE, std=std, bounds=bounds))
    return us


def C24(tier):
    specs = ['B1B1B1', 'B2B2B2', 'B3B3B3', 'B1B2B3', 'B3B1B2', 'B2B3B1', 'E1L2B1', 'B1B1B2', 'B2B1B1']
    specs += ['B4B1B1', 'B1B4B2', 'B1B1B5', 'B4B4B4', 'E3B2L1', 'B1B5B1', 'E7B1B3', 'B2B8B1', 'L3L1L2']
    if tier == 'thorough':
        specs += ['B5B5B5', 'E6B4L2', 'B8B8B8']
    specs += ['E12B1B1', 'B1E10B1', 'B1B1E11', 'E16B1E9'] + [f % v for v in literals.extra(10, 40, 3) for f in ('E%dB1B1', 'B1E%dB1', 'B1B1E%d') if v not in (10, 11, 12)]
    return setdata_units(specs)


# ---------------------------------------------------------------- C25
def node_decl(sh):
    return '\n  '.join('%s n%d[%d]; %s( n%d );' % (CTY[sh.ty], k, b.N, b.helper, k) for k, b in enumerate(sh.bases))


def sumK(mod, sh, der, B):
    L = 0.0
    for tup in sh.tuples:
        w = 1.0
        for q, (b, i) in enumerate(zip(sh.bases, tup)):
            w *= kappa(mod, b, i, int(q == der), B)
        L += w
    return L


def poly_contract(sh, B, sfx=''):
    """Interpolating the nodal samples of a polynomial (symbolic coefficients) of the reproduced space."""
    fn = 'poly_%s_%d%s' % (sh.name, B, sfx)
    t = CTY[sh.ty]
    d, N = sh.d, sh.npts
    smp = ['{ %s s = 0; for ( int m = 0; m < %d; ++m ) s += a[m]%s; f( %s ) = s; }' % (
        t, N, ''.join(' * pw%d[%d][e%d[m]]' % (k, tup[k], k) for k in range(d)), ', '.join(map(str, tup))) for tup in sh.tuples]
    exps = ['static constexpr int e%d[%d] = { %s };' % (k, N, ', '.join(str(tup[k]) for tup in sh.tuples)) for k in range(d)]
    pws = ['%s pw%d[%d][%d]; for ( int i = 0; i < %d; ++i ) { pw%d[i][0] = 1; for ( int e = 1; e < %d; ++e ) pw%d[i][e] = pw%d[i][e-1] * n%d[i]; }' % (
        t, k, b.N, b.N, b.N, k, b.N, k, k, k) for k, b in enumerate(sh.bases)]
    cpp = '\n  '.join([
        'SX void %s( %s const * x, %s const * a, %s * out )\n{' % (fn, t, t, t), 'using T = %s;' % sh.kinds['PE'], coords(sh, 'arr'), node_decl(sh)] + exps + pws + [
        'CArrayNd< %s, %s > f;' % (t, ', '.join(map(str, sh.dims)))] + smp + [
        'out[0] = T::value( c, f );', 'auto const g = T::gradient( c, f );', ' '.join('out[%d] = g( %d );' % (1 + k, k) for k in range(d))]) + '\n}'

    def ens(c):
        mod = c.con.mod
        xs, a = c.a['x'], c.a['a']
        for k in range(-1, d):
            sp = {}
            for m, tup in enumerate(sh.tuples):
                e = list(tup)
                co = Fraction(1)
                if k >= 0:
                    co = Fraction(e[k])
                    e[k] -= 1
                    if not co:
                        continue
                p = P.scale(tos(a[m]).p, co)
                for q in range(d):
                    p = P.mul(p, P.power(xs[q].p, e[q]))
                sp = P.add(sp, p)
            tol = 64 * (sum(sh.dims) + N) * U[sh.ty] * sumK(mod, sh, k, B) * N
            c.close('the polynomial is reproduced' if k < 0 else 'gradient component %d of the polynomial is reproduced' % k, c.o['out'][k + 1], S(sp, 0.0, tol), tol)
    return Contract(fn, cpp, fn, [In('x', sh.ty, d, -B, B), In('a', sh.ty, N, -1, 1), Out('out', sh.ty, 1 + d)], ens,
                    title='ParentElement< %s > reproduces its polynomials' % sh.name, targets='ParentElement::value( coord, field ), ParentElement::gradient( coord, field )')


def affine_contract(sh, B, sfx=''):
    fn = 'affine_%s_%d%s' % (sh.name, B, sfx)
    t = CTY[sh.ty]
    d, N = sh.d, sh.npts
    fill = ['t.getData()( %s, %d ) = a[%d]%s;' % (', '.join(map(str, tup)), i, d * d + i, ''.join(' + a[%d] * n%d[%d]' % (i * d + k, k, tup[k]) for k in range(d)))
            for tup in sh.tuples for i in range(d)]
    cpp = '\n  '.join(['SX void %s( %s const * x, %s const * a, %s * J )\n{' % (fn, t, t, t), coords(sh, 'arr'), node_decl(sh), '%s t;' % sh.lt] + fill + [
        '%s const & ct = t; typename %s::JacobianType jo; for ( int k = 0; k < %d; ++k ) jo.data()[k] = J[k];' % (sh.lt, sh.lt, d * d),
        'geometry::utilities::jacobian( ct, c, jo );', ' '.join('J[%d] = jo( %d, %d );' % (i * d + j, i, j) for i in range(d) for j in range(d))]) + '\n}'

    def ens(c):
        for i in range(d):
            for j in range(d):
                tol = 64 * (sum(sh.dims) + N) * U[sh.ty] * sumK(c.con.mod, sh, j, B) * (d + 1) * 8
                c.close('J(%d,%d) of an affine cell is the matrix entry' % (i, j), c.o['J'][i * d + j], tos(c.a['a'][i * d + j]), tol)
    return Contract(fn, cpp, fn, [In('x', sh.ty, d, -B, B), In('a', sh.ty, d * d + d, -8, 8), Out('J', sh.ty, d * d)], ens,
                    title='Jacobian of an affine cell of shape %s' % sh.name, targets='jacobian( LinearTransform, coords, J )')


def repro_units(shapes, B=1, std='17', pfx='c25'):
    us = []
    for sh in shapes:
        u = Unit('%s_%s_%d_%s' % (pfx, sh.name, B, std), [poly_contract(sh, B), affine_contract(sh, B)], PRE + helpers(sh.bases), std=std)
        u.cost = sh.npts ** 2 * sh.d
        us.append(u)
    return us


def C25(tier):
    us = repro_units([Shape(s) for s in S1 + S2 + S3[:5]])
    us += repro_units([Shape(s, 'f') for s in ('B2', 'E3', 'B1B2', 'L2E1', 'B1B1B1', 'E1L2B1')])
    us += repro_units([Shape(s) for s in ('E2', 'B1B2', 'B1B1B1')], B=4)
    us += repro_units([Shape(s) for s in ('B2', 'E2', 'B1B2', 'B1B1B1', 'E1L2B1')] + [Shape('B1B1', 'f')], B=1 << 10)
    us += [u for B in lit_box() for u in repro_units([Shape(s) for s in WIDE], B=B)]
    us += repro_units([Shape(s) for s in H1[:11] + H1[12:] + ['B5B3', 'E6L1', 'B1B8', 'E3E4', 'L3L3', 'E2E2', 'E2E2E2', 'B5B1E2', 'B1B1B1B1']], pfx='c25t')
    us += repro_units([Shape(s) for s in ['E10', 'E12'] + [x for x in lit_line(14) if x not in ('E10', 'E12')]], pfx='c25t')
    if tier == 'thorough':
        us += repro_units([Shape(s) for s in ('E9', 'B3B3B3', 'B6B6', 'B4B1E4', 'B1E2L1B2')], pfx='c25t')
    return us


# ---------------------------------------------------------------- C21
def C21(tier):
    from . import numerics as N1
    us = []
    for std in ('17', '20', '23', '26'):
        sm = [Basis('E', 2), Basis('B', 1), Basis('B', 3), Basis('L', 2), Basis('E', 3, 'f'), Basis('B', 2, 'f')]
        if tier == 'thorough':
            sm = N1.bases1('quick')
        us += N1.basis_units(tier, 0, std, sm, boxes=(1,)) + N1.basis_units(tier, 1, std, sm, boxes=(1,))
        us += tp_units([Shape(s) for s in ('B2', 'B1B2', 'E2B3', 'B1B1B1', 'E1L2B2')] + [Shape('B1B2', 'f')], std=std, pfx='c21t')
        us += fld_units([Shape(s) for s in ('B1B2', 'B1B1B1', 'E1L2B2')] + [Shape('B1B2', 'f')], std=std, pfx='c21f')
        us += jac_units([Shape(s) for s in ('B1B2', 'B1B1B1', 'E1B2B1')], std=std, pfx='c21j')
        us += qjac_units([(Shape('B1B1B1'), 'L', 2, [(0, 1, 0), (1, 0, 1), (0, 0, 1)])], std=std, pfx='c21q')
        us += invjac_units([(Shape('B1B1B1'), 2, 1.0)], std=std, pfx='c21i')
        us += setdata_units(['B1B1B1', 'E1L2B1'], std=std, pfx='c21s')
    # every other public operation, compiled and verified under the later standards
    from . import carray, loops, misc
    for std in ('20', '23', '26'):
        q = tier == 'quick'
        for m, prop, ev in ((carray, 'C01', 12), (carray, 'C02', 12), (carray, 'C03', 12), (carray, 'C04', 8), (loops, 'C05', 6), (loops, 'C06', 6),
                            (loops, 'C07', 2), (N1, 'C08', 2), (N1, 'C09', 1), (None, 'C16', 24), (None, 'C17', 4), (misc, 'C18', 3), (misc, 'C19', 4),
                            (misc, 'C20', 4), (misc, 'C23', 2)):
            for u in (globals()[prop] if m is None else getattr(m, prop))('quick'):
                v = restd(u, std, (ev if q else max(1, ev // 4)) * (6 if std == '26' else 1))
                if v is not None:
                    us.append(v)
    return us


def restd(u, std, every):
    """The same wrappers compiled under another standard (every 'every'-th contract)."""
    if u.std == std:
        return None
    cons = [copy.copy(c) for k, c in enumerate(u.contracts) if c.summary is not None or k % every == 0]
    if not cons:
        return None
    v = Unit('c21_%s_%s' % (std, u.name), cons, u.pre, std, u.bounds)
    if hasattr(u, 'cost'):
        v.cost = u.cost
    v.ubsan = u.ubsan
    return v


META = {
    'C12': dict(bound='1-5 directions, 62 shapes with mixed orders 1-12 and spacings (list in shivav/fam/fe.py), coordinates in [-1,1] and, for some shapes, [-4,4] and [-1024,1024], given as built-in array, array object, view and braced list',
                assume=['rounding tolerance 4 d u times the magnitude bound, on top of the tolerance of the one-dimensional contracts']),
    'C13': dict(bound='1-4 directions, 53 shapes with mixed orders 1-12 and spacings, coordinates in [-1,1] (some [-4,4] and [-1024,1024]), nodal values in boxes scaled from 2^-100 to 2^100; field given as array object and as callable',
                assume=['rounding tolerance 4 (d+N) u times the magnitude bound, on top of the tolerance of the one-dimensional contracts']),
    'C14': dict(bound='1-5 directions, 46 shapes with mixed orders 1-12 and spacings, vertex coordinates in boxes scaled from 2^-100 to 2^100, also boxes of a different scale in each direction; parent coordinates in [-1,1] (some [-4,4] and [-1024,1024]) as built-in array, array object, view and braced list; sequences of calls on one object, changed in between; compile-time quadrature points of several rules',
                assume=['rounding tolerance 4 (d+N) u times the magnitude bound, on top of the tolerance of the one-dimensional contracts']),
    'C15': dict(bound='three-dimensional shapes (listed in shivav/fam/fe.py), vertex coordinates in [-2s,2s] with |det| >= s^3 for nine scales s from 2^-80 to 2^60 (double), [-s,s] with |det| >= s^3/2 for s from 2^-10 to 2^8 (float), cells of unequal scale in each direction and cells with a small determinant for their size; parent coordinates in [-1,1] (some [-4,4]); sequences of calls on one object, changed in between',
                assume=['rounding tolerance 64 u (|cof|/delta + |cof||det|/delta^2)', 'adjugate identity adj(J) J = J adj(J) = det(J) I discharged in C17 for all reals']),
    'C16': dict(bound='lengths in one contract per binade, from 2^-335 to 2^335 (double) and 2^-40 to 2^41 (float); half-length exact up to 1e300 / 1e37; sequences of calls on one object, changed in between'),
    'C17': dict(bound='entries in [-B,B] with |det| >= delta for the listed (B, delta), scaled from 2^-200 to 2^200 (double) and 2^-20 to 2^20 (float), and with rows or columns of unequal scale; identity lemma for all reals',
                assume=['rounding tolerance 64 u (|cof|/delta + |cof||det|/delta^2)']),
    'C21': dict(bound='C++17, C++20, C++23 (clang 18 IR, g++ 13 native), C++26 (clang 18 for both); subset of the C10-C15 instantiations under each standard; for C++20, C++23 and C++26 also a fixed selection of the contracts of every other family (arrays, loops, spacings, quadrature, scalings, inverse, shapes, helpers, assertion, kernel wrappers)'),
    'C24': dict(bound='22 three-dimensional shapes with 2-17 support points per direction (thorough 25 shapes), equal and mixed'),
    'C25': dict(bound='1-4 directions, mixed orders 1-12 and spacings, up to 36 support points (thorough 64); coefficients in [-1,1], affine map entries in [-8,8], coordinates in [-1,1], some [-4,4] and [-1024,1024]',
                assume=['rounding tolerance 64 (sum of points) u times the sum over support points of the products of magnitudes']),
}
