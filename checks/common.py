"""Build of the analysis inputs from /repo's working tree, reporting, evidence."""
import hashlib, json, os, subprocess, sys, time, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
sys.path.insert(0, HERE)
from engine import AnalysisError, Program

CLANG = shutil.which('clang++-18') or '/usr/bin/clang++-18'
LLVMCFG = shutil.which('llvm-config-18') or 'llvm-config-18'
FLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-DNDEBUG', '-DHAVE_CONFIG_H=1',
         '-DCACHELOT_PLATFORM_BITS=64', '-DBOOST_ALL_NO_LIB', '-fno-access-control', '-emit-llvm', '-c', '-w']


def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
    if p.returncode != 0:
        raise AnalysisError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd)[:300], (p.stderr or p.stdout)[-3000:]))
    return p.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def place(tmp, dst):
    os.replace(tmp, dst)


def tool():
    src = os.path.join(ROOT, 'tool', 'irview.cpp')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'irview-' + sha(rd(src)))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        run([CLANG, '-O1'] + run([LLVMCFG, '--cxxflags']).split() + [src, '-o', tmp] + run([LLVMCFG, '--ldflags']).split() + ['-lLLVM-18'])
        place(tmp, out)
    return out


_srchash = None


def srchash():
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(os.path.relpath(p, REPO).encode() + b'\0' + rd(p) + b'\0')
        _srchash = h.hexdigest()[:20]
    return _srchash


def gen_include():
    """config.h / version.h are generated (git-ignored) files: provide them when absent"""
    out = []
    src = os.path.join(REPO, 'src', 'cachelot')
    need = [f for f in ('config.h', 'version.h') if not os.path.exists(os.path.join(src, f))]
    if need:
        d = os.path.join(BUILD, 'gen', 'cachelot')
        os.makedirs(d, exist_ok=True)
        for f in need:
            txt = ''
            p = os.path.join(src, f + '.in')
            if os.path.exists(p):
                for l in open(p):
                    w = l.split()
                    if l.startswith('#cmakedefine') and len(w) >= 2:
                        l = '#define %s 1\n' % w[1] if w[1] in ('HAVE_ALIGNED_ALLOC', 'HAVE_POSIX_MEMALIGN') else ''
                    import re
                    l = re.sub(r'@[A-Za-z_]+@', '1', l)
                    txt += l
            with open(os.path.join(d, f + '.%d' % os.getpid()), 'w') as fh:
                fh.write(txt)
            place(fh.name, os.path.join(d, f))
        out = ['-I' + os.path.join(BUILD, 'gen')]
    return out


def bitcode(tu, extra=()):
    """tu: absolute, or relative to /verif or /repo"""
    p = tu if os.path.isabs(tu) else (os.path.join(ROOT, tu) if os.path.exists(os.path.join(ROOT, tu)) else os.path.join(REPO, tu))
    if not os.path.exists(p):
        raise AnalysisError('anchor file %s not found' % tu)
    os.makedirs(BUILD, exist_ok=True)
    key = sha(srchash(), rd(p), FLAGS, extra, REPO)
    out = os.path.join(BUILD, '%s-%s.bc' % (os.path.basename(tu), key))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        run([CLANG] + FLAGS + list(extra) + gen_include() + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(ROOT, 'drv'), p, '-o', tmp])
        place(tmp, out)
    return out


_views = {}


def view(tu, roots, keeps, extra=(), opts=()):
    k = (tu, tuple(roots), tuple(keeps), tuple(extra), tuple(opts))
    if k in _views:
        return _views[k]
    t = tool()
    bc = bitcode(tu, extra)
    out = bc[:-3] + '-' + sha(t, k) + '.json'
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        cmd = [t, bc, tmp]
        for r in roots:
            cmd += ['--root', r]
        for r in keeps:
            cmd += ['--keep', r]
        run(cmd + list(opts))
        place(tmp, out)
    _views[k] = Program(out)
    return _views[k]
