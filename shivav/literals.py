"""Constants of the source under test, used to choose further instantiations: a template parameter that the source singles
out (or compares with a threshold) is instantiated at, just below and just above that value."""
import glob
import os
import re
from . import build


def _text():
    out = []
    for f in sorted(glob.glob(os.path.join(build.REPO, 'include', 'shiva', '**', '*.hpp'), recursive=True)):
        t = open(f, errors='replace').read()
        t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
        t = re.sub(r'//[^\n]*', ' ', t)
        t = re.sub(r'"(?:\\.|[^"\\\n])*"', ' ', t)
        out.append(t)
    return '\n'.join(out)


def ints():
    """Integer literals (including integer-valued shifts 1 << k)."""
    t = _text()
    r = set()
    for m in re.finditer(r"(?<![\w.'])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)[uUlLzZ]*(?![\w.'])", t):
        s = m.group(1).replace("'", '')
        try:
            r.add(int(s, 0) if s[0] != '0' or s[1:2] in 'xXbB' and len(s) > 1 else int(s, 8))
        except ValueError:
            pass
    for m in re.finditer(r'\b1[uUlL]*\s*<<\s*(\d+)', t):
        if int(m.group(1)) < 63:
            r.add(1 << int(m.group(1)))
    return sorted(r)


def reals():
    t = _text()
    r = set()
    for m in re.finditer(r"(?<![\w.])(\d[\d']*\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)", t):
        r.add(float(m.group(1).replace("'", '')))
    return sorted(r)


def near(lo, hi):
    """Literals and their neighbours inside [lo, hi]."""
    return sorted({v + d for v in ints() for d in (-1, 0, 1) if lo <= v + d <= hi})


# what the source contains as pinned: language versions and single digits, which the fixed lists cover anyway
KNOWN = set(range(10)) | {202002, 202302}
_memo = {}


def extra(lo, hi, most=12):
    """Values in [lo, hi] equal to or next to a literal the pinned source does not contain."""
    if 'i' not in _memo:
        _memo['i'] = [v for v in ints() if v not in KNOWN]
    r = sorted({v + d for v in _memo['i'] for d in (0, 1, -1) if lo <= v + d <= hi}, key=lambda x: (x not in _memo['i'], x))
    return r[:most]


def magnitude():
    """The largest literal magnitude (up to 2^60) of the source."""
    if 'm' not in _memo:
        _memo['m'] = max([v for v in ints() + reals() if v < 2.0 ** 60 and v not in KNOWN] or [1])
    return _memo['m']
