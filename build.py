"""Builds the extensions of /repo's working tree in a folder of its own, keyed by the content of the sources."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig, tempfile, time

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'repast4py')
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(HERE, '.build')
PY = '/opt/venv/bin/python'


def digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(SRC + '/**/*', recursive=True)):
        if f.endswith(('.py', '.h', '.cpp', '.hpp', '.c', '.cc')):
            h.update(os.path.relpath(f, SRC).encode() + b'\0')
            h.update(open(f, 'rb').read() + b'\0')
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:20]


def incs():
    code = 'import numpy, mpi4py, sysconfig; print(numpy.get_include()); print(mpi4py.get_include()); print(sysconfig.get_paths()["include"]); print(sysconfig.get_config_var("EXT_SUFFIX"))'
    return subprocess.check_output([PY, '-c', code], text=True).split()


def build():
    """returns the folder to put on PYTHONPATH; raises on a compilation error"""
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, digest())
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + '/ok'):
            return d
        for o in glob.glob(CACHE + '/*/'):      # one tree at a time
            if time.time() - os.path.getmtime(o) > 1800:
                shutil.rmtree(o, ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=CACHE)
        os.chmod(tmp, 0o755)
        pk = tmp + '/repast4py'
        shutil.copytree(SRC, pk, ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
        np_, mpi, py, suf = incs()
        env = dict(os.environ, OMPI_CXX='g++', OMPI_ALLOW_RUN_AS_ROOT='1')
        env.pop('CCACHE_DIR', None)
        procs = []
        ext = {'_core': [], '_space': []}
        for c in sorted(glob.glob(pk + '/*.cpp')):
            o = c[:-4] + '.o'
            ext['_core' if os.path.basename(c) == 'coremodule.cpp' else '_space'].append(o)
            cmd = ['mpicxx.openmpi', '-std=c++11', '-O1', '-w', '-fPIC', '-DNDEBUG', '-fwrapv', '-I' + np_, '-I' + mpi, '-I' + py, '-c', c, '-o', o]
            procs.append((c, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for c, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                raise RuntimeError('cannot compile %s:\n%s' % (c, out[-2000:]))
        for e, os_ in ext.items():
            if os_:
                subprocess.check_call(['mpicxx.openmpi', '-shared', *os_, '-o', pk + '/' + e + suf], env=env)
        for f in glob.glob(pk + '/*.o'):
            os.remove(f)
        open(tmp + '/ok', 'w').close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return d


if __name__ == '__main__':
    t = time.time()
    print(build(), '%.1fs' % (time.time() - t))
