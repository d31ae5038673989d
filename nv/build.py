"""Builds, from /repo's current working tree, the code that is verified: the
generated headers (egg/hatch.py run in a scratch copy), the wrapper translation
units, and their LLVM IR."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from . import spec
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')


class BuildError(Exception):
    pass


_scratch = [None]


def scratch():
    if _scratch[0] is None:
        base = '/tmp'
        _scratch[0] = tempfile.mkdtemp(prefix='nv-', dir=base)
    return _scratch[0]


def cleanup():
    if _scratch[0] and os.path.isdir(_scratch[0]):
        shutil.rmtree(_scratch[0], ignore_errors=True)
    _scratch[0] = None


def run(cmd, cwd=None, timeout=600):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:400],
                                     p.stdout.decode('utf8', 'replace')[-3000:]))
    return p.stdout.decode('utf8', 'replace')


_gen = {}


def generate():
    """-> directory holding include/ and src/ generated by egg"""
    if 'dir' in _gen:
        return _gen['dir']
    d = os.path.join(scratch(), 'gen')
    os.makedirs(d)
    for sub in ('egg', 'include', 'src'):
        shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub),
                        symlinks=True,
                        ignore=shutil.ignore_patterns('__pycache__'))
    # generated files that are lying around in /repo must not be used
    p = subprocess.run(['git', '-C', REPO, 'ls-files', '-o', '-i',
                        '--exclude-standard', 'include', 'src', 'egg'],
                       stdout=subprocess.PIPE)
    for f in p.stdout.decode().split('\n'):
        q = os.path.join(d, f)
        if f and os.path.isfile(q):
            os.remove(q)
    py = '/usr/bin/python3'
    run([py, '-B', '-W', 'ignore', 'egg/hatch.py', '-lf'], cwd=d)
    _gen['dir'] = d
    return d


def egg_operators():
    """the operator table of the current tree"""
    if 'ops' in _gen:
        return _gen['ops']
    d = generate()
    code = r'''
import sys, json
sys.path.insert(0, 'egg')
sys.dont_write_bytecode = True
import operators as O, common
r = []
for name, op in O.operators.items():
    if op.src:
        continue
    l = []
    for t in op.types:
        outs = [None] if op.output_to == 0 else \
            common.get_output_types(t, op.output_to)
        for o in outs:
            l.append((t, o))
    r.append((op.signature.split(), l, op.cxx_operator,
              op.has_scalar_impl, op.output_to))
print('@@' + json.dumps(r))
'''
    out = run(['/usr/bin/python3', '-B', '-W', 'ignore', '-c', code], cwd=d)
    import json
    _gen['ops'] = json.loads(out.split('@@')[1])
    return _gen['ops']


CLANG = 'clang++'
COMMON = ['-w', '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes',
          '-DNDEBUG', '-ffp-contract=off']


def compile_ir(name, text, flags, std=None, incs=(), passes=None,
               exceptions=False):
    """-> ir.Module"""
    d = generate()
    cpp = os.path.join(scratch(), name + '.cpp')
    ll0 = os.path.join(scratch(), name + '.0.ll')
    ll = os.path.join(scratch(), name + '.ll')
    with open(cpp, 'w') as f:
        f.write(text)
    com = list(COMMON)
    if std:
        com = [c for c in com if not c.startswith('-std=')] + ['-std=' + std]
        if not std.startswith('c++'):
            com += ['-x', 'c']
    run([CLANG] + com + flags.split() + list(incs) +
        ['-I' + os.path.join(d, 'include'), '-S', '-emit-llvm', cpp, '-o',
         ll0])
    run(['opt', '-passes=' + (passes or
                              'always-inline,function(sroa,simplifycfg)'),
         '-S', ll0, '-o', ll])
    with open(ll) as f:
        txt = f.read()
    return ir.Module(txt)


def src_dir():
    return os.path.join(generate(), 'src')


def cty(c, t, x):
    if c == 'v':
        return 'nsimd_%s_v%s' % (x, t)
    if c == 'l':
        return 'nsimd_%s_vl%s' % (x, t)
    if c.startswith('vx'):
        return 'nsimd_%s_v%sx%s' % (x, t, c[2])
    if c == 's':
        return t
    if c == 'p':
        return 'int'
    if c == 'vi':
        return 'nsimd_%s_vi%s' % (x, t[1:])
    if c == '*':
        return t + ' *'
    if c == 'c*':
        return 'const %s *' % t
    if c == '_':
        return 'void'
    raise KeyError(c)


def wrapper(sig, t, o, x):
    name = sig[1]
    ps, cs = [], []
    for i, c in enumerate(sig[2:]):
        a = cty(c, t, x)
        if c in ('*', 'c*', 'p'):
            ps.append('%s a%d' % (a, i))
            cs.append('a%d' % i)
        else:
            ps.append('const %s *a%d' % (a, i))
            cs.append('*a%d' % i)
    fn = 'nsimd_%s_%s_%s%s' % (name, x, o + '_' if o else '', t)
    call = '%s(%s)' % (fn, ', '.join(cs))
    rt = cty(sig[0], o or t, x)
    if rt == 'void':
        body = call + ';'
    else:
        ps.append('%s *r' % rt)
        body = '*r = %s;' % call
    return 'void w_%s_%s%s(%s) { %s }' % (name, o + '_' if o else '', t,
                                          ', '.join(ps), body)


def wrappers(x, items):
    """items: list of (sig, t, out)"""
    return '#include <nsimd/nsimd.h>\nextern "C" {\n' + \
        '\n'.join(wrapper(s, t, o, x) for s, t, o in items) + '\n}\n'
