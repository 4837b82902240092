"""C22: undefined behaviour and frame obligations of every family, bounds checking on and off."""
import copy
import importlib
import re
from ..contract import Contract, Int, InOut, Out
from ..unit import Unit
from .carray import sg, release

FRAME = re.compile(r'no undefined behaviour|frame:|unchanged|not written|its old value|does not abort|obligation within reach|'
                   r'does not access elements|before the handler|nothing printed|released once|path enumeration')


def strip(c):
    c = copy.copy(c)
    c.only = FRAME
    c.nsamples = max(4, min(c.nsamples or 4, 8))
    return c


def clone(u, tagname, bounds=None, every=1, keep=None):
    """Same wrappers, only the undefined-behaviour and frame obligations; native build with trapping UBSan."""
    cons = [strip(c) for k, c in enumerate(u.contracts) if c.summary is not None or k % every == 0]
    if keep:
        cons = [c for c in cons if keep(c)]
    if not cons:
        return None
    v = Unit('c22%s_%s' % (tagname, u.name), cons, u.pre, u.std, u.bounds if bounds is None else bounds)
    if hasattr(u, 'cost'):
        v.cost = u.cost
    v.ubsan = True
    return v


def dealloc_contract(T, how):
    fn = 'c22_dealloc_%s_%s' % (T.replace(' ', '_'), how)
    if how == 'plain':
        body = '{0} * p = new {0}[n]; for ( int k = 0; k < n; ++k ) p[k] = v; {1}( p[n - 1] ); pmpl::deallocateData( p );'.format(T, 'env_d' if T in ('double', 'float') else 'env_i')
        pre = ''
    elif how == 'null':
        body = '{0} * p = nullptr; pmpl::deallocateData( p ); env_d( 0 );'.format(T)
        pre = ''
    else:
        pre = ('struct A_{fn} {{ {T} v; static void * operator new[]( std::size_t s ) {{ void * p = ::operator new( s ); env_i( 1 ); env_p( p ); return p; }} '
               'static void operator delete[]( void * p ) {{ env_i( 2 ); env_p( p ); ::operator delete( p ); }} '
               'static void operator delete( void * p ) {{ env_i( 3 ); env_p( p ); ::operator delete( p ); }} }};\n').format(fn=fn, T=T)
        body = 'A_{0} * p = new A_{0}[n]; for ( int k = 0; k < n; ++k ) p[k].v = v; env_p( p ); pmpl::deallocateData( p );'.format(fn)
    cpp = pre + 'SX void %s( int n, %s v ) { %s }' % (fn, T, body)

    def ens(c):
        if how == 'traced':
            t = [(a, b[0]) for a, b in c.trace]
            ok = len(t) == 5 and [a for a, _ in t] == ['env_i', 'env_p', 'env_p', 'env_i', 'env_p']
            ok = ok and sg(t[0][1]) == 1 and sg(t[3][1]) == 2
            c.prove('released once with the array form', ok)
            if ok:
                same = (lambda a, b: a == b) if c.concrete else (lambda a, b: a.o is b.o and a.off == b.off)
                c.prove('released once: the pointer obtained', same(t[1][1], t[2][1]) and same(t[2][1], t[4][1]))
        if not c.concrete:
            fr = [e for e in c.events if e[0] == 'free']
            c.prove('released once', len(fr) == (0 if how == 'null' else 1))
    from ..contract import FVal
    arg = FVal('v', {'double': 'd', 'float': 'f'}[T], -8, 8) if T in ('double', 'float') else Int('v', {'int': 32, 'char': 8}[T], True)
    return Contract(fn, cpp, fn, [Int('n', 32, True, 1, 6, enum=True), arg], ens, title='deallocateData< %s > (%s)' % (T, how), targets='pmpl::deallocateData', nsamples=4)


def fams(tier):
    """(property, {bounds settings}, stride over contracts)"""
    q = tier == 'quick'
    return [('C01', (None,), 3 if q else 1), ('C02', (None,), 3 if q else 1), ('C03', (None,), 3 if q else 1), ('C04', (True, False), 3 if q else 1),
            ('C05', (True, False), 2 if q else 1), ('C06', (True, False), 7 if q else 1), ('C07', (True, False), 2 if q else 1),
            ('C08', (True,), 1), ('C09', (True,), 1), ('C18', (True,), 2 if q else 1), ('C19', (True,), 1), ('C20', (True,), 2 if q else 1), ('C23', (True, False), 1)]


def C22(tier):
    us = []
    for prop, bs, ev in fams(tier):
        from .registry import MODS
        m = importlib.import_module('shivav.fam.' + MODS[prop])
        for b in bs:
            for u in getattr(m, prop)('quick'):
                us.append(clone(u, 'n' if b is False else 'b', b, ev))
    from . import numerics as N, fe
    from .numerics import Basis
    from .fe import Shape
    fu = []
    bs = N.bases1('quick') if tier != 'quick' else [Basis('E', 1), Basis('E', 4), Basis('B', 1), Basis('B', 3), Basis('B', 5), Basis('L', 2), Basis('B', 8), Basis('E', 2, 'f'), Basis('L', 3, 'f')]
    fu += N.basis_units(tier, 0, '17', bs, boxes=(16,)) + N.basis_units(tier, 1, '17', bs, boxes=(16,))
    S = (lambda *a: [Shape(x) for x in a])
    F = (lambda *a: [Shape(x, 'f') for x in a])
    for b in (True, False):
        fu += fe.tp_units(S('B2', 'B1B2', 'E1L2B2', 'B1E2L1B2') + F('B1B1B1'), bounds=b, loops=True)
        fu += fe.fld_units(S('E2', 'B1B2', 'E1L2B2', 'B1B1B1') + F('B1B1B1'), bounds=b)
        fu += fe.jac_units(S('E2', 'B1B2', 'B1B1B1', 'E1B2B1') + F('B1B1B1'), bounds=b)
        fu += fe.qjac_units([(Shape('B1B1B1'), 'L', 2, [(0, 1, 0), (1, 1, 1)]), (Shape('B1B2'), 'B', 3, [(0, 2), (1, 1)])], bounds=b)
        fu += fe.invjac_units([(Shape('B1B1B1'), 2, 1.0)], bounds=b)
        fu += fe.setdata_units(['B1B1B1', 'B3B1B2', 'E1L2B1'] if tier == 'quick' else ['B1B1B1', 'B2B2B2', 'B1B2B3', 'B3B1B2', 'B2B3B1', 'E1L2B1'], bounds=b)
    us += [clone(u, 'f', None) for u in fu]
    for b in (True, False):
        us += [clone(u, 'n' if b is False else 'b', b, 2) for u in fe.C16('quick') + fe.C17('quick')]
    pre = '#include "shiva/common/pmpl.hpp"\nusing namespace shiva;\n'
    for b in (True, False):
        u = Unit('c22_dealloc_%d' % b, [dealloc_contract(T, h) for T in ('double', 'float', 'int', 'char') for h in ('plain', 'null', 'traced')], pre, bounds=b)
        u.ubsan = True
        us.append(u)
    us = [u for u in us if u is not None]
    return us + release(us[::5], 4)


META = {
    'C22': dict(bound='the contracts of the other checks (all families; in the quick tier a fixed selection of them), reduced to their undefined-behaviour and frame obligations, '
                      'with bounds checking on and off',
                assume=['inputs inside the domain stated by each contract (indices in range, finite floating inputs in the stated boxes, initialised cell data)'],
                trust=['native runs of these contracts are built with trapping UndefinedBehaviorSanitizer and guard zones around every argument']),
}
