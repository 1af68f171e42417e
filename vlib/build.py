"""Builds the monitored executables from /repo's current working tree."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=alignment,function', '-fno-sanitize-recover=undefined'],
    'tsan': ['-fsanitize=thread'],
}
OPTIONAL = ('scen_arena.c', 'scen_containers.c')   # need internal headers; only their own properties depend on them


class BuildError(Exception):
    pass


def repo_files(*subs):
    out = []
    for sub in subs:
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs[:] = sorted(d for d in dirs if d not in ('__pycache__', '.git', 'build'))
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith(('.c', '.h', '.py', '.in', '.gr', '.txt'))]
    return out


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def config_dir():
    """config.h as cmake would write it on this platform"""
    src = os.path.join(REPO, 'config.h.in')
    d = os.path.join(BUILD, 'cfg-' + digest([src]))
    if not os.path.exists(os.path.join(d, 'config.h')):
        os.makedirs(d, exist_ok=True)
        with open(src) as f:
            text = f.read().replace('#cmakedefine', '#define')
        tmp = os.path.join(d, 'config.%d' % os.getpid())
        with open(tmp, 'w') as f:
            f.write(text)
        os.rename(tmp, os.path.join(d, 'config.h'))
    return d


def runtime_sources():
    src = [f for f in glob.glob(os.path.join(REPO, 'runtime', '*.c')) if 'vali' not in os.path.basename(f)]
    src += [f for f in glob.glob(os.path.join(REPO, 'runtime', 'link', 'socket', '*.c')) if 'vali' not in os.path.basename(f)]
    return sorted(src)


def cflags(kind):
    return ['-g', '-O1', '-fno-omit-frame-pointer', '-D_GNU_SOURCE', '-w'] + SAN[kind] + [
        '-I' + os.path.join(HERE, 'harness', 'shim'), '-I' + config_dir(), '-I' + os.path.join(REPO, 'include'),
        '-I' + os.path.join(REPO, 'runtime', 'link', 'socket'), '-I' + os.path.join(REPO, 'runtime')]


WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('send', 'recv', 'recvfrom', 'sendto', 'connect', 'bind', 'listen'))]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(keep=8):
    ds = sorted((d for d in glob.glob(os.path.join(BUILD, '[atg]*-*')) if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def cc(args):
    p = subprocess.run(['clang'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(kind, optional_ok=True):
    """returns the path of the runtime harness in the given instrumentation"""
    harness = sorted(glob.glob(os.path.join(HERE, 'harness', '*.[ch]')) + glob.glob(os.path.join(HERE, 'harness', 'shim', '*')))
    files = repo_files('runtime', 'include') + [os.path.join(REPO, 'config.h.in')] + harness
    with Lock():
        d = os.path.join(BUILD, '%s-%s' % (kind, digest(files, kind + ' '.join(SAN[kind]))))
        exe = os.path.join(d, 'h')
        if os.path.exists(exe):
            os.utime(d)
            return exe
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        flags = cflags(kind)
        jobs = [(f, 'h_') for f in harness if f.endswith('.c')] + [(f, 'r_') for f in runtime_sources()]
        objs, errs = [], []

        def one(job):
            f, p = job
            o = os.path.join(d, p + os.path.relpath(f, '/').replace('/', '_')[:-2] + '.o')
            rc, out = cc(flags + (['-include', os.path.join(HERE, 'harness', 'shim', 'inject.h')] if p == 'r_' else []) + ['-c', f, '-o', o])
            return f, o, rc, out
        with ThreadPoolExecutor(8) as ex:
            for f, o, rc, out in ex.map(one, jobs):
                if rc == 0:
                    objs.append(o)
                elif os.path.basename(f) in OPTIONAL and optional_ok:
                    with open(os.path.join(d, 'skipped'), 'a') as s:
                        s.write(f + '\n' + out)
                else:
                    errs.append(f + '\n' + out)
        if errs:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError('\n'.join(errs))
        rc, out = cc(SAN[kind] + objs + WRAP + ['-lpthread', '-o', exe + '.tmp'])
        if rc:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError(out)
        for o in objs:
            os.unlink(o)
        os.rename(exe + '.tmp', exe)
        prune()
        return exe


def library(flags):
    """the runtime as one object file, for the programs that use generated code"""
    with Lock():
        d = os.path.join(BUILD, 'g%s' % ('-' + digest(repo_files('runtime', 'include') + [os.path.join(REPO, 'config.h.in')], 'lib' + ' '.join(flags))))
        lib = os.path.join(d, 'lib.o')
        if os.path.exists(lib):
            os.utime(d)
            return lib
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        inc = ['-I' + config_dir(), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'runtime', 'link', 'socket'), '-I' + os.path.join(REPO, 'runtime'), '-D_GNU_SOURCE', '-w']
        objs = []
        for f in runtime_sources():
            o = os.path.join(d, os.path.relpath(f, '/').replace('/', '_')[:-2] + '.o')
            rc, out = cc(flags + inc + ['-c', f, '-o', o])
            if rc:
                shutil.rmtree(d, ignore_errors=True)
                raise BuildError(out)
            objs.append(o)
        p = subprocess.run(['ld', '-r', '-o', lib + '.tmp'] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError(p.stdout)
        os.rename(lib + '.tmp', lib)
        prune()
        return lib


if __name__ == '__main__':
    t = time.time()
    for k in sys.argv[1:] or ['asan', 'tsan']:
        try:
            print(build(k))
        except BuildError as e:
            print(str(e)[:4000]); sys.exit(1)
    print('%.1f s' % (time.time() - t))
