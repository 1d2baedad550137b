"""Mechanical extraction: clang -O0 -> LLVM IR -> irdump JSON, on every run."""
import os
import re, subprocess, json, hashlib, tempfile, shutil, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
LLVM20 = '/usr/lib/llvm-20'


class ExtractError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def irdump():
    src = os.path.join(HERE, 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'irdump-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        r = sh(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-I' + LLVM20 + '/include', src, '-o', tmp,
                '-L' + LLVM20 + '/lib', '-lLLVM-20', '-Wl,-rpath,' + LLVM20 + '/lib'])
        if r.returncode:
            raise ExtractError('irdump build failed: ' + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='irvc')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


CFLAGS = ['-S', '-emit-llvm', '-O0', '-g', '-fno-discard-value-names', '-w', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off']


def extract(src, pats, cxx=None, flags=(), inc=()):
    """src relative to the repository"""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    if cxx is None:
        cxx = path.endswith(('.cpp', '.cc'))
    out = os.path.join(tmpdir(), hashlib.sha256((path + repr(flags)).encode()).hexdigest()[:16] + '.ll')
    if not os.path.exists(out):
        cmd = ['clang++', '-std=c++17', '-fno-rtti', '-fno-exceptions'] if cxx else ['clang']
        cmd += CFLAGS + list(flags) + ['-I' + REPO, '-I' + REPO + '/include'] + ['-I' + x for x in inc]
        if cxx:
            cmd += ['-I' + REPO + '/_build', '-isystem', LLVM20 + '/include']
        r = sh(cmd + [path, '-o', out])
        if r.returncode:
            raise ExtractError('clang failed on %s: %s' % (src, r.stderr[-2000:]))
        if cxx:                                          # a hint for devirtualisation that the reader's LLVM writes another way
            t = open(out).read()
            if 'inrange ' in t:
                open(out, 'w').write(re.sub(r'\binrange (?=i\d)', '', t))
    r = sh([irdump(), out] + list(pats))
    if r.returncode:
        raise ExtractError('irdump failed on %s: %s' % (src, r.stderr[-2000:]))
    return json.loads(re.sub(r'\{"other": ?"x86_fp80"\}', '"x86_fp80"', r.stdout))
