"""Runs wrappers natively (g++ build of the same wrapper source against /repo's headers)
on concrete inputs and evaluates the same postconditions on the results."""
import ctypes
import json
import math
import os
import random
import struct
import tempfile
from fractions import Fraction
import numpy as np
import z3
from .contract import Ctx, Int, FVal, Buf, ESZ
from .sym import Atoms, FP, S, fconst, Ob, Special, int_to_fp, Unproved, UNDEF
from . import poly as P

ENV_H = '''
extern "C" {
void env_i( long long ); void env_p( void const * ); void env_d( double ); void env_call( void );
}
'''
ENV_C = '''
#include <signal.h>
#include <stdlib.h>
#include <string.h>
struct ev { long long k; long long v; } *env_ev; long env_n, env_cap;
static void rec(long long k, long long v){ if(env_n>300000) raise(9); if(env_n==env_cap){env_cap=env_cap?2*env_cap:256; env_ev=(struct ev*)realloc(env_ev,env_cap*sizeof(struct ev));} env_ev[env_n].k=k; env_ev[env_n].v=v; env_n++; }
void env_i(long long v){rec(0,v);} void env_p(void const*p){rec(1,(long long)p);} void env_d(double d){long long v; memcpy(&v,&d,8); rec(2,v);} void env_call(void){rec(3,0);}
long env_count(void){return env_n;} void* env_data(void){return env_ev;} void env_reset(void){env_n=0;}
'''
GUARD = 64
PAT = 0xA5


def ctype_int(w, signed):
    return {(8, True): ctypes.c_int8, (8, False): ctypes.c_uint8, (16, True): ctypes.c_int16, (16, False): ctypes.c_uint16,
            (32, True): ctypes.c_int32, (32, False): ctypes.c_uint32, (64, True): ctypes.c_int64,
            (64, False): ctypes.c_uint64, (1, True): ctypes.c_bool, (1, False): ctypes.c_bool}[(w, signed)]


RET = {'void': None, 'd': ctypes.c_double, 'f': ctypes.c_float, 'i32': ctypes.c_int32, 'i64': ctypes.c_int64,
       'u64': ctypes.c_uint64, 'u32': ctypes.c_uint32, 'i1': ctypes.c_bool, 'ptr': ctypes.c_void_p, 'i8': ctypes.c_int8}


def child_run(con, lib, vals):
    """One native call; returns a JSON-able record. vals: name -> int | float | list."""
    lib.env_reset()
    cargs = []
    types = []
    bufs = {}
    base = {}
    for a in con.args:
        v = vals[a.name]
        if isinstance(a, Int):
            t = ctype_int(a.w, a.signed)
            cargs.append(t(v))
            types.append(t)
        elif isinstance(a, FVal):
            t = ctypes.c_double if a.ty == 'd' else ctypes.c_float
            cargs.append(t(v))
            types.append(t)
        else:
            n = a.n * a.es
            b = (ctypes.c_uint8 * (n + 2 * GUARD + 64))()
            ctypes.memset(b, PAT, len(b))
            addr = ctypes.addressof(b) + GUARD
            addr = (addr + 63) & ~63
            if a.kind == 'd':
                data = struct.pack('<%dd' % a.n, *v)
            elif a.kind == 'f':
                data = struct.pack('<%df' % a.n, *v)
            else:
                data = b''.join((x & ((1 << a.kind) - 1)).to_bytes(a.es, 'little') for x in v)
            ctypes.memmove(addr, data, n)
            bufs[a.name] = (b, addr, n)
            base[a.name] = addr
            cargs.append(ctypes.c_void_p(addr))
            types.append(ctypes.c_void_p)
    f = getattr(lib, con.fn)
    f.restype = RET[con.ret]
    f.argtypes = types
    r = f(*cargs)
    if con.ret in ('d', 'f'):
        r = struct.pack('<d', r).hex()
    out = {}
    guard = True
    for nme, (b, addr, n) in bufs.items():
        raw = bytes(b)
        off = addr - ctypes.addressof(b)
        out[nme] = raw[off:off + n].hex()
        if any(x != PAT for x in raw[:off]) or any(x != PAT for x in raw[off + n:]):
            guard = False
    n = lib.env_count()
    tr = []
    if n:
        arr = ctypes.cast(ctypes.c_void_p(lib.env_data()), ctypes.POINTER(ctypes.c_longlong))
        tr = [(arr[2 * i], arr[2 * i + 1]) for i in range(n)]
    return dict(ret=(r if r is not None else 0) if con.ret != 'void' else None, out=out, trace=tr, base=base, guard=guard)


def run_native(con, so, inputs):
    """Run all inputs, surviving aborts. Returns a list of records (status, ...)."""
    recs = []
    i = 0
    while i < len(inputs):
        r, w = os.pipe()
        err = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.dup2(err.fileno(), 2)
                os.dup2(err.fileno(), 1)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_CPU, (10, 10))
                lib = ctypes.CDLL(so)
                libc = ctypes.CDLL(None)
                lib.env_data.restype = ctypes.c_void_p
                lib.env_count.restype = ctypes.c_long
                with os.fdopen(w, 'w') as f:
                    for v in inputs[i:]:
                        a = os.fstat(err.fileno()).st_size
                        rec = child_run(con, lib, v)
                        libc.fflush(None)
                        rec['stderr'] = os.fstat(err.fileno()).st_size - a
                        if rec['stderr']:
                            rec['stderr_text'] = os.pread(err.fileno(), min(rec['stderr'], 65536), a).decode(errors='replace')
                        f.write(json.dumps(rec) + '\n')
                        f.flush()
                os._exit(0)
            except BaseException as e:
                os.write(2, repr(e).encode())
                os._exit(97)
        os.close(w)
        n = 0
        with os.fdopen(r) as f:
            for line in f:
                rec = json.loads(line)
                rec['status'] = 'return'
                recs.append(rec)
                n += 1
        _, st = os.waitpid(pid, 0)
        i += n
        if i < len(inputs):
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            err.seek(0)
            txt = err.read()
            off = sum(q.get('stderr', 0) for q in recs[len(recs) - n:]) if n else 0
            txt = txt[off:]
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 97:
                raise RuntimeError('native harness: ' + txt.decode(errors='replace')[-500:])
            recs.append(dict(status='abort' if sig == 6 else 'crash', signal=sig, stderr=len(txt), ret=None, out=None,
                             trace=[], base={}, guard=True, stderr_text=txt[:65536].decode(errors='replace')))
            i += 1
            if sig in (9, 24):      # runs away: do not repeat it on the other inputs
                err.close()
                return recs
        err.close()
    return recs


def bits(v, ty):
    """Bit pattern of a machine value; every nan counts as one pattern."""
    if v != v:
        return 0x7ff8 << 48 if ty == 'd' else 0x7fc0 << 16
    return int.from_bytes(struct.pack('<d' if ty == 'd' else '<f', v), 'little')


def unbits(x, ty):
    return struct.unpack('<d', struct.pack('<Q', x))[0] if ty == 'd' else struct.unpack('<f', struct.pack('<I', x))[0]


def decode(a, hexs, raw_=False):
    raw = bytes.fromhex(hexs)
    els = []
    for i in range(a.n):
        x = int.from_bytes(raw[i * a.es:(i + 1) * a.es], 'little')
        els.append((bits(unbits(x, a.kind), a.kind) if raw_ else int_to_fp(x, a.kind)) if a.kind in ESZ else x)
    return els


def fp(v, ty):
    if v != v or abs(v) == math.inf:
        return Special(repr(v))
    r = fconst(Fraction(float(v)), ty)
    if v == 0 and math.copysign(1, v) < 0:
        r = FP(r.p, r.E, r.M, r.ty)
        r.nz = True
    return r


def ctx_inputs(con, vals):
    c = Ctx(Atoms(), con)
    c.concrete = True
    c.level = frozenset()
    for a in con.args:
        v = vals[a.name]
        if isinstance(a, Int):
            c.a[a.name] = v
        elif isinstance(a, FVal):
            c.a[a.name] = bits(v, a.ty) if con.raw else fp(v, a.ty)
        elif a.kind in ESZ:
            c.a[a.name] = [bits(x, a.kind) if con.raw else fp(x, a.kind) for x in v]
        else:
            c.a[a.name] = [x & ((1 << a.kind) - 1) for x in v]
    return c


def evaluate(con, vals, rec):
    """Concrete evaluation of the postcondition; returns the failed obligations."""
    c = ctx_inputs(con, vals)
    c.status = rec['status']
    if c.status == 'crash':
        return [Ob('no crash (signal %d)' % rec['signal'], False, 'native', rec.get('stderr_text', ''))]
    if not rec['guard']:
        c.obs.append(Ob('frame: memory around the arguments unchanged', False, 'native'))
    c.events = [('native', 'stderr', rec['stderr'])] if rec['stderr'] else []
    c.text = rec.get('stderr_text', '')
    if c.status == 'abort' and not con.may_abort:
        return [Ob('does not abort', False, 'native', rec.get('stderr_text', ''))]
    if c.status == 'return':
        c.native_ptr = rec['base']
        for a in con.args:
            if isinstance(a, Buf):
                c.o[a.name] = decode(a, rec['out'][a.name], con.raw)
                if a.mode == 'in':
                    for i, (x, y) in enumerate(zip(c.o[a.name], c.a[a.name])):
                        c.same('frame: %s[%d] unchanged' % (a.name, i), x, y)
        r = rec['ret']
        if con.ret in ('d', 'f'):
            r = struct.unpack('<d', bytes.fromhex(r))[0]
            r = bits(r, con.ret) if con.raw else fp(r, con.ret)
        elif con.ret == 'i1':
            r = int(bool(r))
        elif con.ret in ('i32', 'u32'):
            r = r & 0xffffffff
        elif con.ret in ('i64', 'u64'):
            r = r & (2 ** 64 - 1)
        c.ret = r
    tr = []
    for k, v in rec['trace']:
        if k == 0:
            tr.append(('env_i', (v & (2 ** 64 - 1),)))
        elif k == 1:
            tr.append(('env_p', (v & (2 ** 64 - 1),)))
        elif k == 2:
            tr.append(('env_d', (int_to_fp(v & (2 ** 64 - 1), 'd'),)))
        else:
            tr.append(('env_call', ()))
    c.trace = tr
    con.ensures(c)
    return [o for o in c.obs if not o.ok]


def admissible(con, vals):
    ints = {}
    for a in con.args:
        if isinstance(a, Int):
            v = vals[a.name]
            if a.lo is not None and v < a.lo or a.hi is not None and v > a.hi:
                return False
            ints[a.name] = z3.BitVecVal(v, a.w)
    if con.requires:
        for b in con.requires(ints):
            if isinstance(b, bool):
                if not b:
                    return False
            elif not z3.is_true(z3.simplify(b)):
                return False
    if con.facts:
        c = ctx_inputs(con, vals)
        for q, d in con.facts(c):
            if abs(P.cval(q)) < d:
                return False
    return True


def f32(x):
    return float(np.float32(x))


def rnd_float(rng, lo, hi, ty):
    k = rng.random()
    if k < 0.15:
        v = rng.choice([lo, hi, 0.0, 1.0, -1.0, 0.5, -0.5])
        if not lo <= v <= hi:
            v = lo
    elif k < 0.3:
        v = max(lo, min(hi, rng.uniform(-1, 1)))
    else:
        v = rng.uniform(lo, hi)
    if ty == 'f':
        v = f32(v)
        v = max(min(v, f32(hi)), f32(lo))
    return v


def rnd_int(rng, a):
    lo = a.lo if a.lo is not None else (-(1 << (a.w - 1)) if a.signed else 0)
    hi = a.hi if a.hi is not None else ((1 << (a.w - 1)) - 1 if a.signed else (1 << a.w) - 1)
    if a.w == 1:
        lo, hi = 0, 1
    k = rng.random()
    if k < 0.5 and hi - lo > 32:
        v = rng.choice([rng.randint(-2, 8), lo, hi, 0, 1])
        return max(lo, min(hi, v))
    return rng.randint(lo, hi)


def rnd_bits(rng, ty):
    """Values arithmetic would change: non-finite, signed zeros, subnormal, extreme, any bits."""
    big, tiny = (1.7976931348623157e308, 5e-324) if ty == 'd' else (3.4028234663852886e38, 1.401298464324817e-45)
    k = rng.randrange(9)
    if k < 8:
        return [math.nan, math.inf, -math.inf, 0.0, -0.0, rng.choice([big, -big]), rng.choice([tiny, -tiny]), tiny * rng.randint(1, 1 << 22)][k]
    return unbits(rng.getrandbits(64 if ty == 'd' else 32), ty)


def sample(con, rng, boxes=None):
    for _ in range(300):
        wild = rng.choice([0.0, 0.3, 0.6])
        if con.sampler:
            vals = con.sampler(rng)
        else:
            vals = {}
        for a in con.args:
            if a.name in vals:
                continue
            if isinstance(a, Int):
                vals[a.name] = rnd_int(rng, a)
            elif isinstance(a, FVal):
                lo, hi = (boxes or {}).get(a.name, (a.lo, a.hi))
                vals[a.name] = rnd_bits(rng, a.ty) if con.raw and rng.random() < wild else rnd_float(rng, lo, hi, a.ty)
            elif a.kind in ESZ:
                vs = []
                for i in range(a.n):
                    lo, hi = (boxes or {}).get('%s[%d]' % (a.name, i), a.box(i))
                    v = rnd_float(rng, lo, hi, a.kind)
                    if wild > 0 and (con.raw or a.mode == 'out') and rng.random() < wild:
                        v = rnd_bits(rng, a.kind)
                    vs.append(v)
                vals[a.name] = vs
            else:
                vals[a.name] = [rng.getrandbits(a.kind) for _ in range(a.n)]
        if admissible(con, vals):
            return vals
    return None


def directed(con, rng, boxes, rels, atoms):
    """Search for inputs that satisfy the (polynomial) comparisons of one path: coordinate-wise bisection from a random start."""
    vals = sample(con, rng, boxes)
    if vals is None:
        return None
    slot, rng_of, ty_of = {}, {}, {}
    for a in con.args:
        if isinstance(a, FVal):
            slot[a.name] = (a.name, None)
            rng_of[a.name] = boxes.get(a.name, (a.lo, a.hi))
            ty_of[a.name] = a.ty
        elif isinstance(a, Buf) and a.kind in ESZ:
            for i in range(a.n):
                nm = '%s[%d]' % (a.name, i)
                slot[nm] = (a.name, i)
                rng_of[nm] = boxes.get(nm, a.box(i))
                ty_of[nm] = a.kind
    cur = {nm: (vals[k] if i is None else vals[k][i]) for nm, (k, i) in slot.items()}
    memo = {}

    def atom(i):
        if i not in memo:
            a = atoms.l[i]
            if a.name in cur:
                memo[i] = cur[a.name]
            elif a.defn is not None:
                memo[i] = ev(a.defn[0])
            elif a.recip is not None:
                q = ev(a.recip)
                memo[i] = 1.0 / q if q else 1e300
            else:
                memo[i] = (a.lo + a.hi) / 2
        return memo[i]

    def ev(p):
        s = 0.0
        for m, c in p.items():
            t = float(c)
            for i, e in m:
                x = atom(i)
                t *= x ** e if (x or e > 0) else 1e300
            s += t
        return s

    def deps(p, seen):
        out = set()
        for m in p:
            for i, e in m:
                if i in seen:
                    continue
                seen.add(i)
                a = atoms.l[i]
                if a.name in cur:
                    out.add(a.name)
                elif a.defn is not None:
                    out |= deps(a.defn[0], seen)
                elif a.recip is not None:
                    out |= deps(a.recip, seen)
        return out
    dv = [sorted(deps(d, set())) for d, lo, hi in rels]

    def val(nm, x, p):
        cur[nm] = x
        memo.clear()
        return ev(p)

    def score(p, lo, hi):
        v = ev(p)
        return 0.0 if lo <= v <= hi else (lo - v if v < lo else v - hi)
    try:
        for rnd in range(4):
            bad = 0
            for (d, lo, hi), ds in zip(rels, dv):
                memo.clear()
                if not ds or not score(d, lo, hi) and (rnd or math.isinf(lo + hi)):
                    continue
                bad += 1
                nm = rng.choice(ds)
                l, h = rng_of[nm]
                x0 = cur[nm]
                xs = sorted({l, h, x0, 0.0 if l <= 0 <= h else l} | {rng.uniform(l, h) for _ in range(9)})
                fs = [val(nm, x, d) for x in xs]
                hit = [x for x, f in zip(xs, fs) if lo <= f <= hi]
                if hit and (math.isinf(lo) or math.isinf(hi) or rng.random() < 0.3):
                    val(nm, rng.choice(hit), d)
                    continue
                tgt = lo if lo == hi or math.isinf(hi) else hi if math.isinf(lo) else \
                    lo + (hi - lo) * rng.choice([0.5, 0.02, 0.98, rng.random()])
                cr = [k for k in range(len(xs) - 1) if (fs[k] - tgt) * (fs[k + 1] - tgt) <= 0]
                if not cr:
                    k = min(range(len(xs)), key=lambda k: abs(fs[k] - tgt))
                    val(nm, xs[k], d)
                    continue
                k = rng.choice(cr)
                a, b, fa = xs[k], xs[k + 1], fs[k]
                for _ in range(70):
                    m = (a + b) / 2
                    fm = val(nm, m, d)
                    if m in (a, b) or lo <= fm <= hi and (math.isinf(lo + hi) or abs(fm - tgt) <= 0.1 * (hi - lo)):
                        break
                    if (fm - tgt) * (fa - tgt) <= 0:
                        b = m
                    else:
                        a, fa = m, fm
                # step into the interior of the admissible side
                m = cur[nm]
                for dx in (0.0, (h - l) * 2.0 ** -rng.randint(8, 50), -(h - l) * 2.0 ** -rng.randint(8, 50)):
                    if l <= m + dx <= h and lo <= val(nm, m + dx, d) <= hi:
                        break
                else:
                    val(nm, m, d)
            if not bad:
                break
    except (OverflowError, ZeroDivisionError):
        return None
    for nm, (k, i) in slot.items():
        x = cur[nm]
        if ty_of[nm] == 'f':
            x = f32(x)
        l, h = rng_of[nm]
        x = max(l, min(h, x))
        if i is None:
            vals[k] = x
        else:
            vals[k][i] = x
    return vals if admissible(con, vals) else None


def from_model(con, model, rng):
    """Inputs from a z3 model (integers), floating inputs random."""
    vals = sample_partial(con, rng)
    for a in con.args:
        if isinstance(a, Int):
            v = model.eval(z3.BitVec(a.name, a.w), model_completion=True).as_long()
            if a.signed and a.w > 1 and v >> (a.w - 1):
                v -= 1 << a.w
            vals[a.name] = v
        elif isinstance(a, Buf) and a.kind not in ESZ:
            vals[a.name] = [model.eval(z3.BitVec('%s[%d]' % (a.name, i), a.kind), model_completion=True).as_long()
                            for i in range(a.n)]
    return vals if admissible(con, vals) else None


def sample_partial(con, rng):
    vals = {}
    for a in con.args:
        if isinstance(a, Int):
            vals[a.name] = 0
        elif isinstance(a, FVal):
            vals[a.name] = rnd_float(rng, a.lo, a.hi, a.ty)
        elif a.kind in ESZ:
            vals[a.name] = [rnd_float(rng, *a.box(i), a.kind) for i in range(a.n)]
        else:
            vals[a.name] = [rng.getrandbits(a.kind) for _ in range(a.n)]
    return vals
