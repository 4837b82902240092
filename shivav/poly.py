"""Exact multivariate (Laurent) polynomials with rational coefficients.

A polynomial is a dict: monomial -> Fraction.  A monomial is a tuple of
(atom id, exponent) sorted by atom id, exponents non-zero (may be negative for
atoms whose box excludes zero)."""
from fractions import Fraction
import math

ZERO = {}
ONE = {(): Fraction(1)}
_mc = {}


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def atom(a):
    return {((a, 1),): Fraction(1)}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), Fraction(0)) if p else Fraction(0)


def add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = -c
        else:
            s = s - c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def scale(p, k):
    if not k:
        return {}
    return {m: c * k for m, c in p.items()}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mc.get(k)
    if r is None:
        if len(_mc) > 400000:
            _mc.clear()
        d = dict(a)
        for x, e in b:
            n = d.get(x, 0) + e
            if n:
                d[x] = n
            else:
                del d[x]
        r = tuple(sorted(d.items()))
        _mc[k] = r
    return r


def mul(p, q):
    if not p or not q:
        return {}
    if is_const(p):
        return scale(q, cval(p))
    if is_const(q):
        return scale(p, cval(q))
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            s = r.get(m)
            r[m] = c1 * c2 if s is None else s + c1 * c2
    return {m: c for m, c in r.items() if c}


def power(p, n):
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


def atoms_of(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def compose1(coefs, p):
    """Univariate polynomial given by coefs (low to high) at the polynomial p (Horner)."""
    r = {}
    for c in reversed(coefs):
        r = add(mul(r, p), const(c))
    return r


def up(x):
    """Round a float bound upwards a little more than any rounding it can have suffered."""
    return math.nextafter(x * (1 + 1e-15), math.inf) if x else 0.0


def fup(fr):
    """Fraction -> float, rounded up in magnitude."""
    if not fr:
        return 0.0
    try:
        return math.nextafter(abs(float(fr)), math.inf)
    except OverflowError:
        return math.inf


def sup(p, box):
    """Upper bound (float) of |p| over the box: box(a) -> (lo, hi) floats."""
    s = 0.0
    for m, c in p.items():
        t = fup(c)
        for a, e in m:
            lo, hi = box(a)
            if e > 0:
                b = max(abs(lo), abs(hi))
                t = up(t * up(b ** e))
            else:
                if lo <= 0 <= hi:
                    return math.inf
                b = min(abs(lo), abs(hi))
                t = up(t * up(1.0 / math.nextafter(b ** (-e), 0.0)))
        s = up(s + t)
    return s


def interval(p, box):
    """(lo, hi) floats enclosing p over the box (termwise)."""
    L = H = 0.0
    for m, c in p.items():
        # interval of monomial
        ml, mh = 1.0, 1.0
        for a, e in m:
            lo, hi = box(a)
            if e < 0:
                if lo <= 0 <= hi:
                    return -math.inf, math.inf
                lo, hi = 1.0 / hi, 1.0 / lo
                lo, hi = math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)
                e = -e
            if e % 2 == 0 and lo < 0:
                if hi <= 0:
                    lo, hi = -hi, -lo
                else:
                    lo, hi = 0.0, max(-lo, hi)
                l, h = lo ** e, hi ** e
            else:
                l, h = lo ** e, hi ** e
            l = math.nextafter(l, -math.inf) if l else 0.0
            h = math.nextafter(h, math.inf) if h else 0.0
            cands = (ml * l, ml * h, mh * l, mh * h)
            ml, mh = math.nextafter(min(cands), -math.inf), math.nextafter(max(cands), math.inf)
        f = float(c)
        fl, fh = math.nextafter(f, -math.inf), math.nextafter(f, math.inf)
        if Fraction(f) == c:
            fl = fh = f
        cands = (ml * fl, ml * fh, mh * fl, mh * fh) if m else (fl, fh)
        lo1, hi1 = min(cands), max(cands)
        if m or L or H:
            L = math.nextafter(L + lo1, -math.inf)
            H = math.nextafter(H + hi1, math.inf)
        else:
            L, H = lo1, hi1
    return L, H


def evaluate(p, val):
    """Exact value with val(atom) -> Fraction."""
    s = Fraction(0)
    for m, c in p.items():
        t = c
        for a, e in m:
            t *= val(a) ** e
        s += t
    return s


def fmt(p, name=str, limit=8):
    if not p:
        return '0'
    out = []
    for m, c in list(p.items())[:limit]:
        ms = '*'.join(name(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
        try:
            cs = '%.17g' % float(c)
        except OverflowError:
            cs = str(c)
        out.append(cs + ('*' + ms if ms else ''))
    if len(p) > limit:
        out.append('... (%d terms)' % len(p))
    return ' + '.join(out)
