"""Parser for the subset of LLVM 18 textual IR that clang -O0 emits for the wrappers."""
import re
import struct
from fractions import Fraction


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"
 | [%@]"(?:[^"\\]|\\.)*"
 | [%@$][-a-zA-Z0-9$._]+
 | "(?:[^"\\]|\\.)*"
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+
 | \#\d+ | ![-a-zA-Z0-9$._]*
 | \.\.\.
 | [a-zA-Z_][-a-zA-Z0-9_.]*
 | [\[\]{}()<>,=*:|;]
)''', re.X)


def tokenize(line):
    out = []
    i = 0
    n = len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            if line[i:].strip() == '':
                break
            raise IRError('cannot tokenize: %r' % line[i:i + 60])
        t = m.group(1)
        if t == ';':
            break
        out.append(t)
        i = m.end()
    return out


# ---- types -------------------------------------------------------------
class T:
    __slots__ = ('k', 'w', 'el', 'n', 'name', 'packed')

    def __init__(s, k, w=0, el=None, n=0, name=None, packed=False):
        s.k, s.w, s.el, s.n, s.name, s.packed = k, w, el, n, name, packed

    def __repr__(s):
        if s.k == 'i':
            return 'i%d' % s.w
        if s.k in ('arr', 'vec'):
            return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct':
            return '{%s}' % ', '.join(map(repr, s.el))
        return s.name or s.k


_ints = {}


def int_t(w):
    if w not in _ints:
        _ints[w] = T('i', w)
    return _ints[w]


DOUBLE, FLOAT, PTR, VOID = T('double'), T('float'), T('ptr'), T('void')
LABEL, META, X86 = T('label'), T('metadata'), T('x86_fp80')
SIMPLE = {'double': DOUBLE, 'float': FLOAT, 'ptr': PTR, 'void': VOID, 'label': LABEL, 'metadata': META,
          'x86_fp80': X86}

ATTR_WORDS = set('''dead_on_unwind writable noundef nonnull zeroext signext inreg noalias nocapture readonly readnone writeonly
 immarg returned nofree dso_local local_unnamed_addr unnamed_addr linkonce_odr internal private external weak_odr
 hidden mustprogress common constant global comdat inbounds nuw nsw exact tail notail musttail fastcc ccc volatile
 allocsize swiftself noinline thread_local available_externally weak default protected disjoint nneg noext nest'''.split())


class Instr:
    __slots__ = ('op', 'dst', 'a', 'ty', 'x', 'line')

    def __init__(s, op, dst, ty, a, x, line):
        s.op, s.dst, s.ty, s.a, s.x, s.line = op, dst, ty, a, x, line

    def __repr__(s):
        return s.line


class Function:
    def __init__(s, name, ret, params, raw):
        s.name, s.ret, s.params, s.raw = name, ret, params, raw  # params: (type, regname, attrs dict)
        s.blocks = None
        s.entry = None
        s.varargs = False
        s.calls_cache = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self._gtext = {}
        self._layout = {}
        self._tcache = {}
        lines = text.split('\n')
        i = 0
        self.target = None
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z0-9$._]+)\s*\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, body = l.split(' = type ', 1)
                self.types[nm] = body
            elif l.startswith('@'):
                nm, body = l.split(' = ', 1)
                self._gtext[nm[1:].strip('"')] = body
            i += 1

    # -- types
    def ptype(self, tk, i):
        t = tk[i]
        if t[0] == 'i' and t[1:].isdigit():
            ty = int_t(int(t[1:]))
            i += 1
        elif t in SIMPLE:
            ty = SIMPLE[t]
            i += 1
        elif t == '[':
            n = int(tk[i + 1])
            el, i = self.ptype(tk, i + 3)
            assert tk[i] == ']'
            ty = T('arr', el=el, n=n)
            i += 1
        elif t == '{':
            ty, i = self._struct(tk, i, False)
        elif t == '<':
            if tk[i + 1] == '{':
                ty, i = self._struct(tk, i + 1, True)
                assert tk[i] == '>'
                i += 1
            else:
                n = int(tk[i + 1])
                el, i = self.ptype(tk, i + 3)
                assert tk[i] == '>'
                ty = T('vec', el=el, n=n)
                i += 1
        elif t[0] == '%':
            ty = self.named(t)
            i += 1
        else:
            raise IRError('type expected at %r' % tk[i:i + 6])
        # function type: ret (args)
        return ty, i

    def _struct(self, tk, i, packed):
        els = []
        i += 1
        while tk[i] != '}':
            if tk[i] == ',':
                i += 1
                continue
            e, i = self.ptype(tk, i)
            els.append(e)
        return T('struct', el=els, packed=packed), i + 1

    def named(self, nm):
        if nm not in self._tcache:
            body = self.types.get(nm)
            if body is None:
                raise IRError('unknown type ' + nm)
            if body.strip() == 'opaque':
                self._tcache[nm] = T('struct', el=[], name=nm)
            else:
                ty, _ = self.ptype(tokenize(body), 0)
                ty.name = nm
                self._tcache[nm] = ty
        return self._tcache[nm]

    def sizealign(self, t):
        k = t.k
        if k == 'i':
            b = max(1, (t.w + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if k == 'double' or k == 'ptr':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'arr':
            s, a = self.sizealign(t.el)
            return s * t.n, a
        if k == 'vec':
            s, a = self.sizealign(t.el)
            b = s * t.n
            p = 1
            while p < b:
                p *= 2
            return p, p
        if k == 'struct':
            return self.layout(t)[1:]
        if k == 'x86_fp80':
            return 16, 16
        raise IRError('size of %r' % t)

    def layout(self, t):
        key = id(t)
        r = self._layout.get(key)
        if r is None:
            offs = []
            o = 0
            al = 1
            for e in t.el:
                s, a = self.sizealign(e)
                if not t.packed:
                    o = (o + a - 1) // a * a
                    al = max(al, a)
                offs.append(o)
                o += s
            if not t.packed:
                o = (o + al - 1) // al * al
            r = (offs, o, al, t)  # keep t alive: the key is its id
            self._layout[key] = r
        return r[:3]

    def size(self, t):
        return self.sizealign(t)[0]

    # -- globals
    def gvar(self, name):
        g = self.globals.get(name)
        if g is None:
            body = self._gtext[name]
            tk = tokenize(body)
            i = 0
            ext = False
            const = False
            while tk[i] not in ('global', 'constant', 'alias'):
                if tk[i] in ('external', 'extern_weak'):
                    ext = True
                i += 1
            const = tk[i] == 'constant'
            if tk[i] == 'alias':
                raise IRError('alias ' + name)
            ty, i = self.ptype(tk, i + 1)
            init = None
            if not ext:
                init, i = self.value(tk, i, ty)
            g = (ty, init, const)
            self.globals[name] = g
        return g

    # -- constants and operands.  ('r', reg) for registers; ints; ('fp', Fraction|str); ('g', name, off)
    def value(self, tk, i, ty):
        t = tk[i]
        c = t[0]
        if c == '%':
            return ('r', t), i + 1
        if c == '@':
            return ('g', t[1:].strip('"'), 0), i + 1
        k = ty.k
        if t == 'undef' or t == 'poison':
            return ('undef',), i + 1
        if t == 'zeroinitializer':
            return self.zero(ty), i + 1
        if k == 'i':
            if t == 'true':
                return 1, i + 1
            if t == 'false':
                return 0, i + 1
            if t in ('ptrtoint', 'trunc', 'sub', 'add'):
                raise IRError('constant expression ' + t)
            return int(t) & ((1 << ty.w) - 1), i + 1
        if k in ('double', 'float', 'x86_fp80'):
            return ('fp', fpconst(t)), i + 1
        if k == 'ptr':
            if t == 'null':
                return ('null',), i + 1
            if t == 'getelementptr':
                i += 1
                while tk[i] != '(':
                    i += 1
                i += 1
                bty, i = self.ptype(tk, i)
                assert tk[i] == ','
                pty, i = self.ptype(tk, i + 1)
                base, i = self.value(tk, i, pty)
                idx = []
                while tk[i] == ',':
                    i += 1
                    if tk[i] == 'inrange':
                        i += 1
                    ity, i = self.ptype(tk, i)
                    v, i = self.value(tk, i, ity)
                    if v >= 1 << (ity.w - 1):
                        v -= 1 << ity.w
                    idx.append(v)
                assert tk[i] == ')'
                off = self.gepoff(bty, idx)
                if base[0] != 'g':
                    raise IRError('gep constant on non-global')
                return ('g', base[1], base[2] + off), i + 1
            if t == 'inttoptr':
                ity, j = self.ptype(tk, i + 2)
                v, j = self.value(tk, j, ity)
                while tk[j] != ')':
                    j += 1
                return ('addr', v), j + 1
            raise IRError('pointer constant %r' % t)
        if k in ('arr', 'vec'):
            if t.startswith('c"'):
                s = t[2:-1]
                b = bytearray()
                j = 0
                while j < len(s):
                    if s[j] == '\\':
                        if s[j + 1] == '\\':
                            b.append(92)
                            j += 2
                        else:
                            b.append(int(s[j + 1:j + 3], 16))
                            j += 3
                    else:
                        b += s[j].encode('latin1')
                        j += 1
                return ('agg', list(b)), i + 1
            close = ']' if t == '[' else '>'
            els = []
            i += 1
            while tk[i] != close:
                if tk[i] == ',':
                    i += 1
                    continue
                et, i = self.ptype(tk, i)
                v, i = self.value(tk, i, et)
                els.append(v)
            return ('agg', els), i + 1
        if k == 'struct':
            packed = t == '<'
            i += 2 if packed else 1
            els = []
            while tk[i] != '}':
                if tk[i] == ',':
                    i += 1
                    continue
                et, i = self.ptype(tk, i)
                v, i = self.value(tk, i, et)
                els.append(v)
            i += 1
            if packed:
                i += 1
            return ('agg', els), i
        if k == 'metadata':
            return ('undef',), i + 1
        raise IRError('value %r of type %r' % (t, ty))

    def zero(self, ty):
        k = ty.k
        if k == 'i':
            return 0
        if k in ('double', 'float', 'x86_fp80'):
            return ('fp', Fraction(0))
        if k == 'ptr':
            return ('null',)
        if k in ('arr', 'vec'):
            return ('agg', [self.zero(ty.el)] * ty.n)
        return ('agg', [self.zero(e) for e in ty.el])

    def gepoff(self, bty, idx):
        off = idx[0] * self.size(bty)
        t = bty
        for v in idx[1:]:
            if t.k == 'struct':
                off += self.layout(t)[0][v]
                t = t.el[v]
            else:
                t = t.el
                off += v * self.size(t)
        return off

    # -- functions
    def _define(self, head, body):
        tk = tokenize(head)
        i = 1
        while True:
            t = tk[i]
            if t in SIMPLE or t in '[{<' or t[0] == '%' or (t[0] == 'i' and t[1:].isdigit()):
                break
            if t == '(':
                raise IRError(head)
            i += 1
            if i < len(tk) and tk[i] == '(':   # attribute with argument: align(8) etc.
                while tk[i] != ')':
                    i += 1
                i += 1
            elif t in ('align', 'dereferenceable') and tk[i].isdigit():
                i += 1
        ret, i = self.ptype(tk, i)
        name = tk[i][1:].strip('"')
        assert tk[i][0] == '@', head
        i += 2
        params = []
        va = False
        while tk[i] != ')':
            if tk[i] == ',':
                i += 1
                continue
            if tk[i] == '...':
                va = True
                i += 1
                continue
            ty, i = self.ptype(tk, i)
            attrs = {}
            reg = None
            while tk[i] not in (',', ')'):
                t = tk[i]
                if t[0] == '%':
                    reg = t
                    i += 1
                elif t in ('sret', 'byval'):
                    aty, i = self.ptype(tk, i + 2)
                    attrs[t] = aty
                    i += 1
                elif t in ('dereferenceable', 'dereferenceable_or_null', 'align') and tk[i + 1] == '(':
                    i += 4
                elif t == 'align':
                    i += 2
                else:
                    i += 1
            if reg is None:
                reg = '%%%d' % len(params)
            params.append((ty, reg, attrs))
        f = Function(name, ret, params, body)
        f.varargs = va
        self.funcs[name] = f

    def body(self, f):
        if f.blocks is None:
            blocks = {}
            # entry label: the first unnamed number after the params, if unlabeled
            cur = None
            lines = f.raw
            n = 0
            idx = 0
            first = None
            while idx < len(lines):
                l = lines[idx]
                idx += 1
                s = l.strip()
                if not s or s.startswith(';'):
                    continue
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z0-9$._]+):', l)
                if m:
                    cur = '%' + m.group(1)
                    blocks[cur] = []
                    if first is None:
                        first = cur
                    continue
                if cur is None:
                    unn = [p for p in f.params if re.match(r'^%\d+$', p[1])]
                    cur = '%%%d' % len(unn)
                    first = cur
                    blocks[cur] = []
                if s.startswith('switch '):
                    while not s.endswith(']'):
                        s += ' ' + lines[idx].strip()
                        idx += 1
                blocks[cur].append(self.instr(s))
            f.blocks = blocks
            f.entry = first
        return f.blocks

    def instr(self, s):
        cut = s.find(', !')
        line = s
        if cut >= 0:
            s = s[:cut]
        tk = tokenize(s)
        i = 0
        dst = None
        if len(tk) > 1 and tk[1] == '=':
            dst = tk[0]
            i = 2
        op = tk[i]
        while op in ('tail', 'notail', 'musttail'):
            i += 1
            op = tk[i]
        i += 1
        P = self.ptype
        V = self.value
        if op == 'alloca':
            ty, i = P(tk, i)
            n = 1
            while i < len(tk):
                if tk[i] == ',' and tk[i + 1] == 'align':
                    i += 3
                elif tk[i] == ',':
                    ity, i = P(tk, i + 1)
                    n, i = V(tk, i, ity)
                else:
                    i += 1
            return Instr('alloca', dst, ty, n, None, line)
        if op == 'load':
            while tk[i] in ('volatile', 'atomic'):
                i += 1
            ty, i = P(tk, i)
            _, i = P(tk, i + 1)
            p, i = V(tk, i, PTR)
            return Instr('load', dst, ty, p, None, line)
        if op == 'store':
            while tk[i] in ('volatile', 'atomic'):
                i += 1
            ty, i = P(tk, i)
            v, i = V(tk, i, ty)
            _, i = P(tk, i + 1)
            p, i = V(tk, i, PTR)
            return Instr('store', None, ty, (v, p), None, line)
        if op == 'getelementptr':
            while tk[i] in ('inbounds', 'nuw', 'nusw'):
                i += 1
            bty, i = P(tk, i)
            _, i = P(tk, i + 1)
            base, i = V(tk, i, PTR)
            idx = []
            while i < len(tk) and tk[i] == ',':
                ity, i = P(tk, i + 1)
                v, i = V(tk, i, ity)
                idx.append((ity.w, v))
            return Instr('gep', dst, bty, (base, idx), None, line)
        if op == 'call':
            while True:
                t = tk[i]
                if t in SIMPLE or t in '[{<' or t[0] == '%' or (t[0] == 'i' and t[1:].isdigit()):
                    break
                i += 1
                if tk[i] == '(':
                    while tk[i] != ')':
                        i += 1
                    i += 1
                elif t == 'align' and tk[i].isdigit():
                    i += 1
            ty, i = P(tk, i)
            if tk[i] == '(':  # function type
                d = 1
                i += 1
                while d:
                    if tk[i] == '(':
                        d += 1
                    elif tk[i] == ')':
                        d -= 1
                    i += 1
            if tk[i][0] == '@':
                callee = ('g', tk[i][1:].strip('"'), 0)
            else:
                callee = ('r', tk[i])
            i += 2
            args = []
            while tk[i] != ')':
                if tk[i] == ',':
                    i += 1
                    continue
                aty, i = P(tk, i)
                attrs = None
                if aty.k == 'metadata':
                    while tk[i] not in (',', ')'):
                        i += 1
                    continue
                while True:
                    t = tk[i]
                    if t in ('sret', 'byval'):
                        at2, i = P(tk, i + 2)
                        attrs = (t, at2)
                        i += 1
                    elif t in ('dereferenceable', 'dereferenceable_or_null', 'align', 'range', 'initializes', 'captures',
                               'elementtype') and tk[i + 1] == '(':
                        while tk[i] != ')':
                            i += 1
                        i += 1
                    elif t == 'align':
                        i += 2
                    elif t in ATTR_WORDS:
                        i += 1
                    else:
                        break
                v, i = V(tk, i, aty)
                args.append((aty, v, attrs))
            return Instr('call', dst, ty, (callee, args), None, line)
        if op == 'ret':
            if tk[i] == 'void':
                return Instr('ret', None, VOID, None, None, line)
            ty, i = P(tk, i)
            v, i = V(tk, i, ty)
            return Instr('ret', None, ty, v, None, line)
        if op == 'br':
            if tk[i] == 'label':
                return Instr('jmp', None, None, tk[i + 1], None, line)
            ty, i = P(tk, i)
            c, i = V(tk, i, ty)
            return Instr('br', None, None, (c, tk[i + 2], tk[i + 5]), None, line)
        if op == 'switch':
            ty, i = P(tk, i)
            v, i = V(tk, i, ty)
            dflt = tk[i + 2]
            i += 4
            cases = []
            while tk[i] != ']':
                cty, i = P(tk, i)
                cv, i = V(tk, i, cty)
                cases.append((cv, tk[i + 2]))
                i += 3
            return Instr('switch', None, ty, (v, dflt, cases), None, line)
        if op == 'unreachable':
            return Instr('unreachable', None, None, None, None, line)
        if op in ('icmp', 'fcmp'):
            while tk[i] in ('fast', 'nnan', 'ninf', 'samesign'):
                i += 1
            pred = tk[i]
            ty, i = P(tk, i + 1)
            a, i = V(tk, i, ty)
            b, i = V(tk, i + 1, ty)
            return Instr(op, dst, ty, (a, b), pred, line)
        if op in BINOPS:
            flags = set()
            while tk[i] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'contract', 'nnan', 'ninf', 'nsz', 'arcp', 'afn',
                            'reassoc'):
                flags.add(tk[i])
                i += 1
            ty, i = P(tk, i)
            a, i = V(tk, i, ty)
            b, i = V(tk, i + 1, ty)
            return Instr('fbin' if op[0] == 'f' else 'bin', dst, ty, (a, b), (op, flags), line)
        if op == 'fneg':
            ty, i = P(tk, i)
            a, i = V(tk, i, ty)
            return Instr('fneg', dst, ty, a, None, line)
        if op in CASTS:
            while tk[i] in ('nneg', 'nuw', 'nsw'):
                i += 1
            ty, i = P(tk, i)
            a, i = V(tk, i, ty)
            assert tk[i] == 'to', s
            ty2, i = P(tk, i + 1)
            return Instr('cast', dst, ty2, (ty, a), op, line)
        if op == 'select':
            cty, i = P(tk, i)
            c, i = V(tk, i, cty)
            ty, i = P(tk, i + 1)
            a, i = V(tk, i, ty)
            _, i = P(tk, i + 1)
            b, i = V(tk, i, ty)
            return Instr('select', dst, ty, (c, a, b), None, line)
        if op == 'phi':
            ty, i = P(tk, i)
            inc = []
            while i < len(tk):
                if tk[i] == ',':
                    i += 1
                assert tk[i] == '['
                v, i = V(tk, i + 1, ty)
                inc.append((v, tk[i + 1]))
                i += 3
            return Instr('phi', dst, ty, inc, None, line)
        if op == 'extractvalue':
            ty, i = P(tk, i)
            a, i = V(tk, i, ty)
            idx = [int(t) for t in tk[i:] if t != ',']
            return Instr('extractvalue', dst, ty, (a, idx), None, line)
        if op == 'insertvalue':
            ty, i = P(tk, i)
            a, i = V(tk, i, ty)
            ety, i = P(tk, i + 1)
            b, i = V(tk, i, ety)
            idx = [int(t) for t in tk[i:] if t != ',']
            return Instr('insertvalue', dst, ty, (a, b, idx), None, line)
        if op == 'extractelement':
            ty, i = P(tk, i)
            a, i = V(tk, i, ty)
            ity, i = P(tk, i + 1)
            b, i = V(tk, i, ity)
            return Instr('extractelement', dst, ty, (a, b), None, line)
        if op == 'insertelement':
            ty, i = P(tk, i)
            a, i = V(tk, i, ty)
            ety, i = P(tk, i + 1)
            b, i = V(tk, i, ety)
            ity, i = P(tk, i + 1)
            c, i = V(tk, i, ity)
            return Instr('insertelement', dst, ty, (a, b, c), None, line)
        if op == 'freeze':
            ty, i = P(tk, i)
            a, i = V(tk, i, ty)
            return Instr('freeze', dst, ty, a, None, line)
        return Instr('unsupported', dst, None, op, None, line)


BINOPS = set('add sub mul sdiv udiv srem urem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CASTS = set('sext zext trunc sitofp uitofp fptosi fptoui fpext fptrunc bitcast ptrtoint inttoptr addrspacecast'.split())


def fpconst(t):
    if t.startswith('0xK'):
        v = int(t[3:], 16)
        e, m, sg = v >> 64 & 0x7fff, v & (1 << 64) - 1, -1 if v >> 79 else 1
        if e == 0x7fff or (e and not m >> 63):
            return 'inf' if m << 1 & (1 << 64) - 1 == 0 and sg > 0 else '-inf' if m << 1 & (1 << 64) - 1 == 0 else 'nan'
        if not m:
            return '-0' if sg < 0 else Fraction(0)
        return sg * m * Fraction(2) ** (max(e, 1) - 16383 - 63)
    if t.startswith('0x'):
        if t[2] in 'KLMHR':
            raise IRError('fp const ' + t)
        d = struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
    else:
        d = float(t)
    if d != d or d in (float('inf'), float('-inf')):
        return repr(d)
    if d == 0 and str(d)[0] == '-':
        return '-0'
    return Fraction(d)
