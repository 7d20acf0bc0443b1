"""Build harness binaries from /repo's working tree, out of tree, keyed by content."""
import hashlib, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

MMC = ['mmc', 'stack-conservative-mmc', 'heap-conservative-mmc', 'parallel-mmc',
       'generational-mmc', 'parallel-generational-mmc', 'stack-conservative-parallel-mmc',
       'stack-conservative-generational-mmc',
       'stack-conservative-parallel-generational-mmc', 'heap-conservative-parallel-mmc',
       'heap-conservative-generational-mmc',
       'heap-conservative-parallel-generational-mmc']
PCC = ['pcc', 'generational-pcc']
ALL = ['semi', 'bdw'] + PCC + MMC

def tree_hash():
    h = hashlib.sha256()
    for d in (REPO + '/src', REPO + '/api', HARNESS):
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if not f.endswith(('.c', '.h')):
                    continue
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode())
                with open(p, 'rb') as fd:
                    h.update(fd.read())
    return h.hexdigest()[:16]

_dir = None
def outdir():
    """The build directory of the current tree; those of other trees are removed."""
    global _dir
    if _dir is None:
        _dir = os.path.join(BUILD, 't-' + tree_hash())
        os.makedirs(_dir, exist_ok=True)
        for d in glob.glob(os.path.join(BUILD, 't-*')):
            if d != _dir:
                shutil.rmtree(d, ignore_errors=True)
    return _dir

MODES = {
    'opt': ['-O2', '-g', '-DNDEBUG'],
    'dbg': ['-Og', '-g', '-DGC_DEBUG=1'],
}
COMMON = ['-Wall', '-fno-strict-aliasing', '-fvisibility=hidden', '-Wno-unused']

def pkg(*a):
    try:
        return subprocess.run(['pkg-config', *a, 'bdw-gc'], capture_output=True,
                              text=True).stdout.split()
    except OSError:
        return ['-lgc'] if '--libs' in a else []

def variant_flags(v):
    libs = []
    if v == 'semi':
        return 'semi', ['-DFZ_SEMI', '-DGC_PRECISE_ROOTS=1'], libs
    if v.endswith('pcc'):
        d = ['-DFZ_PCC', '-DGC_PRECISE_ROOTS=1', '-DGC_PARALLEL=1']
        if 'generational' in v: d.append('-DGC_GENERATIONAL=1')
        return 'pcc', d, libs
    if v == 'bdw':
        return 'bdw', ['-DFZ_BDW', '-DGC_CONSERVATIVE_ROOTS=1',
                       '-DGC_CONSERVATIVE_TRACE=1'] + pkg('--cflags'), pkg('--libs')
    d = ['-DFZ_MMC']
    if v.startswith('stack-c'): d.append('-DGC_CONSERVATIVE_ROOTS=1')
    elif v.startswith('heap-c'): d += ['-DGC_CONSERVATIVE_ROOTS=1', '-DGC_CONSERVATIVE_TRACE=1']
    else: d.append('-DGC_PRECISE_ROOTS=1')
    if 'parallel' in v: d.append('-DGC_PARALLEL=1')
    if 'generational' in v: d.append('-DGC_GENERATIONAL=1')
    return 'mmc', d, libs

def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    return p.returncode, p.stderr

def build_gc(variant, mode):
    """Returns (path or None, error)."""
    out = os.path.join(outdir(), 'gc.%s-%s' % (variant, mode))
    if os.path.exists(out):
        return out, ''
    impl, d, libs = variant_flags(variant)
    src = [REPO + '/src/%s.c' % impl] + [
        REPO + '/src/gc-%s.c' % x for x in
        ('ephemeron', 'finalizer', 'stack', 'options', 'platform-gnu-linux', 'tracepoint')]
    tmp = out + '.tmp%d' % os.getpid()
    cmd = (['gcc'] + COMMON + MODES[mode] + ['-I' + REPO + '/api', '-I' + HARNESS] + d +
           ['-DFZ_VARIANT="%s"' % variant, '-DGC_ATTRS="%s/api/%s-attrs.h"' % (REPO, impl),
            '-DGC_EMBEDDER="fz-embedder.h"', '-o', tmp] + src +
           [HARNESS + '/gcfuzz.c', '-lpthread', '-lm'] + libs)
    rc, err = _run(cmd)
    if rc:
        return None, err
    os.rename(tmp, out)
    return out, ''

def build_unit(name, flags=(), tag='', repo_src=(), cc='gcc', mode='dbg', san=True, libs=()):
    out = os.path.join(outdir(), 'unit.%s%s-%s' % (name, tag, mode))
    if os.path.exists(out):
        return out, ''
    tmp = out + '.tmp%d' % os.getpid()
    m = {'dbg': ['-O1', '-g', '-DGC_DEBUG=1'], 'opt': ['-O2', '-g', '-DNDEBUG']}[mode]
    s = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
         '-fno-omit-frame-pointer'] if san else []
    cmd = ([cc] + COMMON + m + s + ['-I' + REPO + '/api', '-I' + REPO + '/src', '-I' + HARNESS] +
           list(flags) + ['-o', tmp, os.path.join(HARNESS, 'unit-%s.c' % name)] +
           [os.path.join(REPO, 'src', x) for x in repo_src] + ['-lpthread', '-lm'] + list(libs))
    rc, err = _run(cmd)
    if rc:
        return None, err
    os.rename(tmp, out)
    return out, ''

def build_many(thunks):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda t: t(), thunks))
