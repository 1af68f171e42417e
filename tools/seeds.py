#!/usr/bin/env python3
"""Developer tool: makes, confirms and tries the planted bugs in /verif/seeded.

seeds.py make FILE...     definitions (python files that call bug(...)) -> seeded/<id>/
seeds.py confirm [ID..]   in a copy of /repo: the patch builds, the tests pass, the demo tells both trees apart
seeds.py try [ID..]       applies each to /repo, runs the check of its property, and undoes it again
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
TD = os.path.join(V, 'tools', 'demo')
COPY = '/tmp/seedcopy'


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def bug(id, prop, needs, what, edits, demo=None, demo_sh=None, files=()):
    w = tempfile.mkdtemp(prefix='seed')
    for d in ('a', 'b'):
        os.mkdir(os.path.join(w, d))
    changed = {}
    for f, old, new in edits:
        text = changed.get(f) or open('/repo/' + f).read()
        if text.count(old) != 1:
            raise SystemExit('%s: %d matches in %s of %r' % (id, text.count(old), f, old))
        changed[f] = text.replace(old, new)
    out = ''
    for f, text in changed.items():
        p = os.path.join(w, 'new')
        open(p, 'w').write(text)
        r = sh(['git', 'diff', '--no-index', '--no-color', '/repo/' + f, p]).stdout
        lines = r.split('\n')
        body = '\n'.join(l for l in lines if not l.startswith(('diff --git', 'index ', '--- ', '+++ ')))
        out += 'diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n%s' % (f, f, f, f, body)
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    if demo:
        open(d + '/demo.c', 'w').write(demo)
        shutil.copy(TD + '/demo.h', d)
        shutil.copy(TD + '/demo_c.sh', d + '/demo.sh')
    if demo_sh:
        open(d + '/demo.sh', 'w').write(demo_sh)
    for name, text in files:
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        open(os.path.join(d, name), 'w').write(text)
    os.chmod(d + '/demo.sh', 0o755)
    # none of the changed lines may be one of ours
    for f in changed:
        blame = sh(['git', '-C', '/repo', 'blame', '-s', f]).stdout.split('\n')
        n = 0
        cur = None
        for l in out.split('\n'):
            if l.startswith('diff --git'):
                cur = l.split(' b/')[1]
            elif l.startswith('@@'):
                n = int(l.split('-')[1].split(',')[0].split(' ')[0])
            elif l.startswith('-') and not l.startswith('---') and cur == f:
                if not blame[n - 1].startswith('^be7e3e3'):
                    print('%s: %s:%d is not an original line: %s' % (id, f, n, l))
                n += 1
            elif l.startswith(' ') and cur == f:
                n += 1
    print('made', id)


def ids(args):
    return args or sorted(os.listdir(S))


def confirm(args):
    # the tests only run in /repo (paths are fixed), so a copy is bound over it by a private mount namespace
    for id in ids(args):
        d = os.path.join(S, id)
        t = tempfile.mkdtemp(prefix='seeddemo')
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch', 'meta.json')):
                shutil.copy(os.path.join(d, f), t)
        r = []
        for patched in (0, 1):
            sh(['rsync', '-a', '--delete', '/repo/', COPY + '/']) if shutil.which('rsync') else sh(['bash', '-c', 'mkdir -p %s && find %s -mindepth 1 -delete; cp -a /repo/. %s/' % (COPY, COPY, COPY)])
            if patched:
                a = sh(['git', '-C', COPY, 'apply', d + '/patch.diff'])
                if a.returncode:
                    r.append('does not apply ' + a.stdout)
                    break
            script = 'mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || { echo nobuild; exit 1; }\n' % COPY
            if patched:
                script += 'bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1; python3 -c "import json;print(json.load(open(\'/tmp/seedtest.json\')))"\n'
            script += 'cd /repo; timeout 300 bash %s/demo.sh; echo demo=$?\n' % t
            x = sh(['unshare', '-m', 'bash', '-c', script])
            r.append(x.stdout[:1500] + x.stdout[-1500:])
        print('==', id, flush=True)
        ok = len(r) == 2 and 'demo=0' in r[0] and 'demo=0' not in r[1] and 'demo=' in r[1] and "'failed': []" in r[1]
        print('CONFIRMED' if ok else 'NOT CONFIRMED', r[1].strip().split('\n')[-2:] if ok else r)


def attempt(args):
    for id in ids(args):
        d = os.path.join(S, id)
        prop = json.load(open(d + '/meta.json'))['property']
        if sh(['git', '-C', '/repo', 'status', '--short', '-uno']).stdout.strip():
            raise SystemExit('/repo is not clean')
        a = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        t = time.time()
        try:
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            r = sh(['python3', V + '/check.py', prop, '--tier', 'quick'], env=env, cwd=V)
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
        print('%-30s %s rc=%d %.0fs %s' % (id, prop, r.returncode, time.time() - t, 'CAUGHT ' + v[0][:150] if r.returncode == 1 and v else 'MISSED ' + r.stdout[-300:]), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for f in sys.argv[2:]:
            exec(open(f).read(), {'bug': bug})
    elif sys.argv[1] == 'confirm':
        confirm(sys.argv[2:])
    else:
        attempt(sys.argv[2:])
