"""Builds an importable view of /repo's *current working tree*.

The view is a scratch directory holding a `tractor` (and `wise`) package made
of symlinks to /repo's own .py files plus native extensions freshly compiled
from /repo's .i/.c/.cc/.h sources with /repo's own setup.py.  /repo itself is
never written to.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
GENERATED = {'mix.py', 'emfit.py', 'mp_fourier.py', 'ceres.py', 'version.py',
             'gitversion.py'}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.build-cache')


class BuildError(Exception):
    pass


def native_inputs():
    pats = ['*.i', '*.c', '*.cc', '*.h', '*.hpp', '*.cpp']
    fns = []
    for p in pats:
        fns += glob.glob(os.path.join(REPO, 'tractor', p))
    fns = [f for f in fns if not f.endswith(('_wrap.c', '_wrap.cpp', '_wrap.h'))]
    fns += [os.path.join(REPO, 'setup.py'),
            os.path.join(REPO, 'tractor', 'version_post.py')]
    return sorted(f for f in fns if os.path.exists(f))


def native_hash(variant):
    h = hashlib.sha256(variant.encode())
    h.update(open(__file__, 'rb').read())
    for f in native_inputs():
        h.update(os.path.basename(f).encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


SAN = {
    'plain': dict(cflags='', ldflags='', ceres=True),
    # no ceres: its instrumented compile takes minutes and Eigen/ceres
    # themselves are prebuilt; ASan still intercepts malloc for it through the
    # separate 'asanceres' variant.
    'asan': dict(cflags='-fsanitize=address,undefined -fno-sanitize=vptr '
                        '-fno-sanitize-recover=undefined '
                        '-fno-omit-frame-pointer -g -O1',
                 ldflags='-fsanitize=address,undefined', ceres=False),
    'asanceres': dict(cflags='-fsanitize=address,undefined -fno-sanitize=vptr '
                             '-fno-sanitize-recover=undefined '
                             '-fno-omit-frame-pointer -g -O1',
                      ldflags='-fsanitize=address,undefined', ceres=True),
}


def base_env():
    env = dict(HOME=os.environ.get('HOME', '/root'), LANG='C.UTF-8',
               PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', GLOG_minloglevel='3')
    for k in ('TMPDIR', 'VERIF_SEED', 'VERIF_TIER'):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def build_native(variant, dest):
    """Compile extensions into dest (a directory); returns list of products."""
    v = SAN[variant]
    work = dest + '.work'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, 'tractor'))
    os.makedirs(os.path.join(work, 'wise'))
    for f in native_inputs():
        sub = '' if f.endswith('setup.py') else 'tractor'
        shutil.copy(f, os.path.join(work, sub, os.path.basename(f)))
    open(os.path.join(work, 'tractor', '__init__.py'), 'w').close()
    env = base_env()
    if v['cflags']:
        env['CFLAGS'] = v['cflags']
        env['CXXFLAGS'] = v['cflags']
        env['LDFLAGS'] = v['ldflags']
    cmd = [PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j', '4']
    if v['ceres']:
        cmd.append('--with-ceres')
    p = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    sos = glob.glob(os.path.join(work, 'tractor', '*.so'))
    need = 4 if v['ceres'] else 3
    if p.returncode != 0 or len(sos) < need:
        out = p.stdout.decode('utf-8', 'replace')
        shutil.rmtree(work, ignore_errors=True)
        raise BuildError('native build (%s) failed:\n%s' % (variant, out[-3000:]))
    shutil.rmtree(dest, ignore_errors=True)
    os.makedirs(dest)
    for f in sos:
        shutil.copy(f, dest)
    for g in GENERATED:
        f = os.path.join(work, 'tractor', g)
        if os.path.exists(f):
            shutil.copy(f, dest)
    shutil.rmtree(work, ignore_errors=True)


def native_dir(variant, scratch):
    """Directory holding the compiled products for the current tree."""
    use_cache = os.environ.get('VERIF_NO_CACHE') is None
    if use_cache:
        try:
            os.makedirs(CACHE, exist_ok=True)
        except OSError:
            use_cache = False
    if use_cache:
        key = os.path.join(CACHE, variant + '-' + native_hash(variant))
        if os.path.exists(os.path.join(key, 'OK')):
            return key
        tmp = key + '.%d' % os.getpid()
        build_native(variant, tmp)
        open(os.path.join(tmp, 'OK'), 'w').close()
        try:
            os.rename(tmp, key)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small
        old = sorted(glob.glob(os.path.join(CACHE, variant + '-*')),
                     key=os.path.getmtime)
        for o in old[:-4]:
            if o != key:
                shutil.rmtree(o, ignore_errors=True)
        return key
    d = os.path.join(scratch, 'native-' + variant)
    build_native(variant, d)
    return d


def make_overlay(scratch, variant='plain'):
    """Returns a directory to put first on PYTHONPATH."""
    nd = native_dir(variant, scratch)
    ov = os.path.join(scratch, 'ov-' + variant)
    os.makedirs(ov)
    for pkg in ('tractor', 'wise'):
        src = os.path.join(REPO, pkg)
        if not os.path.isdir(src):
            continue
        dst = os.path.join(ov, pkg)
        os.makedirs(dst)
        for f in os.listdir(src):
            full = os.path.join(src, f)
            if f.endswith('.so') or f == '__pycache__':
                continue
            if pkg == 'tractor' and f in GENERATED:
                continue
            if f.endswith(('_wrap.c', '_wrap.cpp')):
                continue
            os.symlink(full, os.path.join(dst, f))
    for f in os.listdir(nd):
        if f == 'OK':
            continue
        shutil.copy(os.path.join(nd, f), os.path.join(ov, 'tractor', f))
    return ov


def asan_env(env):
    lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so'],
                                  env=base_env()).decode().strip()
    lib2 = subprocess.check_output(['gcc', '-print-file-name=libubsan.so'],
                                   env=base_env()).decode().strip()
    cpp = subprocess.check_output(['gcc', '-print-file-name=libstdc++.so.6'],
                                   env=base_env()).decode().strip()
    env['LD_PRELOAD'] = ' '.join(os.path.realpath(x) for x in (lib, lib2, cpp))
    env['ASAN_OPTIONS'] = ('detect_leaks=0:halt_on_error=1:abort_on_error=1:'
                           'detect_stack_use_after_return=0:allocator_may_return_null=1:'
                           'handle_segv=1')
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:print_stacktrace=1'
    env['PYTHONMALLOC'] = 'malloc'
    return env


if __name__ == '__main__':
    import tempfile
    s = tempfile.mkdtemp()
    print(make_overlay(s, sys.argv[1] if len(sys.argv) > 1 else 'plain'))
