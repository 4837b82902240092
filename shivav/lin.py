"""Integer forms of bit-vector terms.

lift(e) gives an integer polynomial p over the machine integers that enter a path (each standing for its signed
value) with e == p modulo 2^width. Sums, differences and products carry over modulo 2^width without side condition;
changes of width need the range of p, which follows from the ranges of the variables. Ranges come from the
precondition and from the branch conditions taken so far. Two terms are equal when their polynomials agree
coefficient by coefficient (modulo 2^width), and comparisons follow from ranges. What this does not decide goes to z3.
"""
import z3

K = z3


class Lin:
    def __init__(s):
        s.vr = {}          # variable name -> (lo, hi) of its signed value
        s.memo = {}        # ast id -> (ast, version, result)
        s.version = 0

    # -- ranges ------------------------------------------------------------
    def rng(s, p):
        lo = hi = 0
        for m, c in p.items():
            a = b = c
            for v in m:
                l, h = s.vr[v]
                q = (a * l, a * h, b * l, b * h)
                a, b = min(q), max(q)
            lo += a
            hi += b
        return lo, hi

    def learn(s, b):
        """Narrow variable ranges from a condition that holds on this path."""
        if not z3.is_expr(b):
            return
        k = b.decl().kind()
        if k == z3.Z3_OP_AND:
            for i in range(b.num_args()):
                s.learn(b.arg(i))
            return
        neg = False
        if k == z3.Z3_OP_NOT:
            neg = True
            b = b.arg(0)
            k = b.decl().kind()
            if k == z3.Z3_OP_NOT:
                s.learn(b.arg(0))
                return
            if k == z3.Z3_OP_OR:
                for i in range(b.num_args()):
                    s.learn(z3.Not(b.arg(i)))
                return
        if k == z3.Z3_OP_EQ and not neg and z3.is_bv(b.arg(0)):
            x, y = s.exact(b.arg(0), True), s.exact(b.arg(1), True)
            if x is not None and y is not None:
                s.bound(sub(x, y), 0)
                s.bound(sub(y, x), 0)
            return
        op = CMP.get(k)
        if op is None:
            return
        sg, sw, strict = op
        x, y = b.arg(0), b.arg(1)
        if sw:
            x, y = y, x
        # x <= y (or x < y); negated: y < x (or y <= x)
        if neg:
            x, y, strict = y, x, not strict
        if sg:
            p, q = s.exact(x, True), s.exact(y, True)
            if p is not None and q is not None:
                s.bound(sub(p, q), -1 if strict else 0)
            return
        q = s.exact(y, False)
        if q is None:
            return
        hi = s.rng(q)[1] - strict
        w = x.size()
        if hi < 1 << (w - 1):
            # the unsigned value is small: the signed value is the same number
            p = s.exact(x, True)
            if p is None:
                p = s.exact(x, False)
            if p is not None:
                s.bound(p, hi)
                s.bound(neg_(p), 0)
        else:
            p = s.exact(x, False)
            if p is not None:
                s.bound(sub(p, q), -1 if strict else 0)

    def bound(s, p, hi):
        """p <= hi, with p = +-v + c: narrow v."""
        c = p.get((), 0)
        rest = [(m, k) for m, k in p.items() if m]
        if len(rest) == 1 and len(rest[0][0]) == 1:
            (v,), k = rest[0]
            lo0, hi0 = s.vr[v]
            if k > 0:
                n = (lo0, min(hi0, (hi - c) // k))
            else:
                n = (max(lo0, -((hi - c) // -k)), hi0)
            if n != (lo0, hi0) and n[0] <= n[1]:
                s.vr[v] = n
                s.version += 1
            return
        # several variables: each against the ranges of the others
        for m, k in rest:
            if len(m) != 1:
                return
        for (v,), k in rest:
            o = s.rng({m: q for m, q in p.items() if m != (v,)})[0]
            s_hi = hi - o
            lo0, hi0 = s.vr[v]
            n = (lo0, min(hi0, s_hi // k)) if k > 0 else (max(lo0, -(s_hi // -k)), hi0)
            if n != (lo0, hi0) and n[0] <= n[1]:
                s.vr[v] = n
                s.version += 1

    # -- polynomials -------------------------------------------------------
    def exact(s, e, signed):
        """Polynomial equal to the (un)signed value of e, or None."""
        p = s.lift(e)
        if p is None:
            return None
        w = e.size()
        lo, hi = s.rng(p)
        a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if a <= lo and hi <= b:
            return p
        if () in p or not p:
            # a constant may be written in the other signedness
            for d in (1 << w, -(1 << w)):
                if a <= lo + d and hi + d <= b:
                    q = dict(p)
                    q[()] = q.get((), 0) + d
                    return q
        return None

    def lift(s, e):
        i = e.get_id()
        t = s.memo.get(i)
        if t is not None and (t[2] is not None or t[1] == s.version):
            return t[2]
        r = s.lift1(e)
        if r is not None and len(r) > 400:
            r = None
        s.memo[i] = (e, s.version, r)
        return r

    def lift1(s, e):
        w = e.size()
        if z3.is_bv_value(e):
            v = e.as_long()
            if v >> (w - 1):
                v -= 1 << w
            return {(): v} if v else {}
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            n = '%s:%d' % (e.decl().name(), w)
            if n not in s.vr:
                s.vr[n] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return {(n,): 1}
        ch = e.children()
        if k == z3.Z3_OP_BADD or k == z3.Z3_OP_BSUB or k == z3.Z3_OP_BMUL:
            r = s.lift(ch[0])
            for c in ch[1:]:
                q = s.lift(c)
                if r is None or q is None:
                    return None
                r = add(r, q) if k == z3.Z3_OP_BADD else sub(r, q) if k == z3.Z3_OP_BSUB else mul(r, q)
            return r
        if k == z3.Z3_OP_BNEG:
            r = s.lift(ch[0])
            return None if r is None else neg_(r)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            r = s.lift(ch[0])
            n = ch[1].as_long()
            return None if r is None or n >= w else mul(r, {(): 1 << n})
        if k == z3.Z3_OP_SIGN_EXT:
            return s.exact(ch[0], True)
        if k == z3.Z3_OP_ZERO_EXT:
            return s.exact(ch[0], False)
        if k == z3.Z3_OP_CONCAT:
            r = s.lift(ch[0])
            for c in ch[1:]:
                q = s.exact(c, False)
                if r is None or q is None:
                    return None
                r = add(mul(r, {(): 1 << c.size()}), q)
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            r = s.lift(ch[0])
            if r is None:
                return None
            if lo:
                if any(c % (1 << lo) for c in r.values()):
                    return None
                r = {m: c >> lo for m, c in r.items()}
            return r
        return None

    # -- conditions --------------------------------------------------------
    def decide(s, b):
        """True / False when the condition is valid / unsatisfiable under the ranges, else None."""
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        k = b.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = s.decide(b.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR
            un = False
            for i in range(b.num_args()):
                r = s.decide(b.arg(i))
                if r is stop:
                    return stop
                un = un or r is None
            return None if un else not stop
        if k == z3.Z3_OP_IMPLIES:
            return s.decide(z3.Or(z3.Not(b.arg(0)), b.arg(1)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and b.num_args() == 2 and z3.is_bv(b.arg(0)):
            x, y = s.lift(b.arg(0)), s.lift(b.arg(1))
            if x is None or y is None:
                return None
            w = b.arg(0).size()
            d = sub(x, y)
            r = None
            if not any(c % (1 << w) for c in d.values()):
                r = True
            else:
                lo, hi = s.rng(d)
                if 0 < lo and hi < 1 << w or hi < 0 and lo > -(1 << w):
                    r = False
            return r if k == z3.Z3_OP_EQ or r is None else not r
        op = CMP.get(k)
        if op is None:
            return None
        sg, sw, strict = op
        x, y = s.exact(b.arg(0), sg), s.exact(b.arg(1), sg)
        if x is None or y is None:
            return None
        d = sub(y, x) if sw else sub(x, y)
        lo, hi = s.rng(d)
        if hi <= -strict:
            return True
        if lo > -strict:
            return False
        return None


# kind -> (signed, operands swapped, strict), read as "first <= second"
CMP = {z3.Z3_OP_SLEQ: (True, False, 0), z3.Z3_OP_SLT: (True, False, 1), z3.Z3_OP_SGEQ: (True, True, 0),
       z3.Z3_OP_SGT: (True, True, 1), z3.Z3_OP_ULEQ: (False, False, 0), z3.Z3_OP_ULT: (False, False, 1),
       z3.Z3_OP_UGEQ: (False, True, 0), z3.Z3_OP_UGT: (False, True, 1)}


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def sub(p, q):
    return add(p, q, -1)


def neg_(p):
    return {m: -c for m, c in p.items()}


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r
