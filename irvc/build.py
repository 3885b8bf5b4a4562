"""Compiling /repo's current sources: LLVM IR for the verifier, native libraries for replay."""
import os
import re
import shutil
import subprocess
import tempfile
import atexit

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
DEFS = ['-DMILO_INTERNAL_ASM=true', '-DMILO_INTERNAL_ABI_UNIX=true']


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='milo-verif-')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and _scratch.startswith(tempfile.gettempdir() + '/milo-verif-'):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    if r.returncode:
        raise BuildError('%s failed:\n%s' % (cmd[0], r.stderr.decode('utf8', 'replace')[-3000:]))
    return r.stdout


_ov = {}


def overlay(consteval=False):
    """copy of /repo/src that clang accepts.  The only textual changes:
    - internal/option.h: `using N = meta::asbool<(requires ...), T>;` becomes `struct N : meta::asbool<...> {};`
      (clang 18 crashes on the alias form; the two are interchangeable for the uses made of them)
    - with consteval: std::is_constant_evaluated() reads true (in milo's files, not in the C++ library), so that the
      constant-evaluation branches are the ones compiled"""
    if consteval in _ov:
        return _ov[consteval]
    d = os.path.join(scratch(), 'src-ce' if consteval else 'src')
    shutil.copytree(os.path.join(REPO, 'src'), d)
    p = os.path.join(d, 'milo/internal/option.h')
    if os.path.exists(p):
        s = open(p).read()
        s = re.sub(r'using\s+(\w+)\s*=\s*(meta::asbool<\s*\(\s*requires\b.*?\),\s*t_option\s*>);', r'struct \1 : \2 {};', s, flags=re.S)
        open(p, 'w').write(s)
    if consteval:
        n = 0
        for dp, dn, fn in os.walk(d):
            for f in fn:
                p = os.path.join(dp, f)
                s = open(p, errors='surrogateescape').read()
                u, k = re.subn(r'\bif\s+consteval\b', 'if (true)', re.sub(r'(\b|::)(std::is_constant_evaluated|__builtin_is_constant_evaluated)\s*\(\s*\)', 'true', s))
                if u != s:
                    n += 1
                    open(p, 'w', errors='surrogateescape').write(u)
        if n == 0:
            raise BuildError('no is_constant_evaluated marker found')
    _ov[consteval] = d
    return d


_n = [0]


def ir(source, consteval=False, defs=(), passes=None, optlevel='-O1', prepass=True, inline=100000, noinline=None):
    """LLVM IR text of a harness (source text) over the overlay"""
    src = overlay(consteval)
    _n[0] += 1
    base = os.path.join(scratch(), 'h%d_%d' % (os.getpid(), _n[0]))
    open(base + '.cpp', 'w').write(source)
    cmd = [CLANG, '-std=c++20', '-I' + src, '-I' + os.path.join(VERIF, 'harness')] + DEFS + list(defs) + ['-w', optlevel]
    if prepass:
        cmd += ['-Xclang', '-disable-llvm-passes']
    cmd += ['-emit-llvm', '-S', base + '.cpp', '-o', base + '.0.ll']
    sh(cmd)
    if not prepass:
        return open(base + '.0.ll').read()
    if noinline:
        # keep functions under contract as functions (textual attribute on the IR definition)
        rx = re.compile(noinline)
        txt = open(base + '.0.ll').read()

        def mark(m):
            return m.group(0) if not rx.search(m.group(2)) else m.group(1) + 'noinline ' + m.group(3)
        txt = re.sub(r'^(define [^\n]*@("[^"]*"|[-\w$.]+)\([^\n]*\) (?:local_unnamed_addr |unnamed_addr )?)(#\d+[^\n]*\{)$', mark, txt, flags=re.M)
        open(base + '.0.ll', 'w').write(txt)
    if passes is None:
        passes = 'cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)'
    sh([OPT, '-S', '-passes=' + passes, '-inline-threshold=%d' % inline, base + '.0.ll', '-o', base + '.ll'])
    return open(base + '.ll').read()


_objs = None


def asm_objects(fmt='elf64'):
    """assembled repo asm: {basename: object path}"""
    global _objs
    if _objs is None:
        objs = {}
        root = os.path.join(REPO, 'src/milo')
        inc = os.path.join(root, 'internal/arch/x86_64')
        for dp, dn, fn in os.walk(root):
            if 'x86_32' in dp:
                continue
            for f in sorted(fn):
                if not f.endswith('.asm') or f == 'abi.asm':
                    continue
                o = os.path.join(scratch(), '%s.%d.o' % (f, os.getpid()))
                defs = ['-dMILO_INTERNAL_ABI_UNIX=1']
                sh(['nasm', '-f', fmt, '-i', inc + '/'] + nasm_defs() + [os.path.join(dp, f), '-o', o])
                objs[f] = o
        _objs = objs
    return _objs


def nasm_defs():
    """the nasm flags the repository's own CMake configuration uses"""
    return ['-dMILO_INTERNAL_ABI_UNIX=true', '-dMILO_INTERNAL_ASM=true']


def native(source, name, cxx='g++', flags=('-O2',), shared=True, asm=True, defs=(), src=None, libs=()):
    """shared library / program from the real sources (unmodified for g++)"""
    base = os.path.join(scratch(), name)
    open(base + '.cpp', 'w').write(source)
    out = base + ('.so' if shared else '.exe')
    inc = src or os.path.join(REPO, 'src')
    cmd = [cxx, '-std=c++20', '-w', '-I' + inc, '-I' + os.path.join(VERIF, 'harness')] + DEFS + list(flags) + list(defs)
    if shared:
        cmd += ['-shared', '-fPIC', '-Wl,-Bsymbolic']
    cmd += [base + '.cpp']
    if asm:
        cmd += list(asm_objects().values())
    cmd += ['-o', out] + list(libs)
    sh(cmd)
    return out
