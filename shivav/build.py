"""Mechanical extraction: wrapper source + /repo headers -> LLVM IR (clang -O0) and a native library (g++)."""
import os
import shutil
import re
import subprocess

REPO = os.environ.get('SHIVA_REPO', '/repo')
CLANG = ['clang++', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-exceptions', '-fno-rtti', '-w',
         '-fno-discard-value-names', '-S', '-emit-llvm', '-g0', '-fno-access-control', '-ftemplate-depth=2000',
         '-fbracket-depth=4096', '-fconstexpr-depth=2000']
GXX = ['g++', '-O1', '-ffp-contract=off', '-w', '-fPIC', '-shared', '-ftemplate-depth=2000', '-fno-access-control']


class BuildError(Exception):
    pass


def gen_config(dir, bounds):
    """ShivaConfig.hpp from the repository's own template, as CMake's configure_file would."""
    src = os.path.join(REPO, 'include/shiva/ShivaConfig.hpp.in')
    txt = open(src).read()
    on = {'SHIVA_ENABLE_BOUNDS_CHECK'} if bounds else set()

    def rep(m):
        return ('#define %s%s' % (m.group(1), m.group(2))) if m.group(1) in on else '/* #undef %s */' % m.group(1)
    txt = re.sub(r'#cmakedefine\s+(\w+)([^\n]*)', rep, txt)
    txt = re.sub(r'@\w+@', '0', txt)
    d = os.path.join(dir, 'shiva')
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'ShivaConfig.hpp'), 'w').write(txt)


def run(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


UBSAN = ['-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-fsanitize-undefined-trap-on-error']


def compile_tu(work, name, src, std='17', bounds=True, native=True, ubsan=False):
    """Returns (ir path, so path). Raises BuildError with the compiler output."""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    inc = os.path.join(d, 'inc')
    gen_config(inc, bounds)
    cpp = os.path.join(d, 'w.cpp')
    open(cpp, 'w').write(src)
    ll = os.path.join(d, 'w.ll')
    so = os.path.join(d, 'w.so')
    I = ['-I' + os.path.join(REPO, 'include'), '-I' + inc]
    p1 = subprocess.Popen(CLANG + ['-std=c++' + std] + I + [cpp, '-o', ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    p2 = None
    if native:
        envo = os.path.join(work, 'env.o')
        # a standard the installed g++ does not know is compiled natively by clang++ too
        cxx = GXX if int(std) <= 23 else ['clang++', '-fbracket-depth=4096', '-fconstexpr-depth=2000'] + GXX[1:]
        p2 = subprocess.Popen(cxx + (UBSAN if ubsan else []) + ['-std=c++' + std] + I + [cpp, envo, '-o', so], stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT)
    o1 = p1.communicate(timeout=600)[0].decode(errors='replace')
    o2 = ''
    if p2:
        o2 = p2.communicate(timeout=600)[0].decode(errors='replace')
    if p1.returncode:
        raise BuildError('clang++: ' + o1[:6000])
    if p2 and p2.returncode:
        raise BuildError('g++: ' + o2[:6000])
    return ll, so


def sanity(work):
    """The headers themselves compile (otherwise the tree is not buildable: an error, not a violation)."""
    src = '#include "shiva/common/CArray.hpp"\n#include "shiva/common/IndexTypes.hpp"\n' \
          '#include "shiva/geometry/mapping/JacobianTransforms.hpp"\n#include "shiva/functions/quadrature/Quadrature.hpp"\n' \
          '#include "shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp"\n' \
          '#include "shiva/functions/bases/LagrangeBasis.hpp"\n#include "shiva/functions/spacing/Spacing.hpp"\n' \
          '#include "shiva/geometry/shapes/NCube.hpp"\n#include "shiva/geometry/shapes/NSimplex.hpp"\n' \
          '#include "shiva/geometry/shapes/InterpolatedShape.hpp"\n#include "shiva/common/pmpl.hpp"\nint x;\n'
    try:
        compile_tu(work, 'sanity', src, native=False)
    except BuildError as e:
        return str(e)
    return None


def demangle(names):
    names = list(names)
    if not names:
        return {}
    p = subprocess.run([shutil.which('llvm-cxxfilt-18') or 'c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
    return dict(zip(names, p.stdout.decode(errors='replace').split('\n')))
