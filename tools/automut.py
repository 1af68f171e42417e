#!/usr/bin/env python3
"""Developer tool: mechanical mutants of the runtime (statement deletion, conditions, relations, constants) against a mix of all scenarios.

automut.py OUT [--files a.c,b.c] [--n N] [--seed S] [--jobs J]    appends one line per mutant to OUT; survivors are also run through the stable tests
Works on copies in /tmp/am; /repo stays as it is.
"""
import argparse, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--files'); ap.add_argument('--n', type=int, default=100); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--jobs', type=int, default=6)
ap.add_argument('--list', action='store_true'); ap.add_argument('--only')
A = ap.parse_args()
W = '/tmp/am%d' % A.seed
from vlib import build as B, plans as P
import check as K

SRC = [f for f in B.runtime_sources()]


def mutants():
    out = []
    for f in SRC:
        name = os.path.relpath(f, B.REPO)
        if A.files and os.path.basename(f) not in A.files.split(','):
            continue
        depth, skip, stack = 0, False, []
        lines = open(f).read().split('\n')
        infn = 0
        for n, l in enumerate(lines):
            s = l.strip()
            # parts for other systems
            if s.startswith('#if'):
                stack.append(not ('WIN32' in s or 'MOLLENOS' in s or 'VALI' in s) or '!defined' in s or 'ifndef' in s)
                continue
            if s.startswith(('#else', '#elif')):
                stack[-1] = not stack[-1]
                continue
            if s.startswith('#endif'):
                stack.pop()
                continue
            if not all(stack) or not l.startswith((' ', '\t')) or s.startswith(('//', '*', '/*', '#')) or 'GRTRACE' in s or 'GRERROR' in s or 'GRWARN' in s:
                continue
            def add(op, new):
                if new != l:
                    out.append((name, n, op, l, new))
            if s.endswith(';') and lines[n - 1].strip()[-1:] in (';', '{', '}', '') and not re.match(r'(return|break|goto|continue|static|struct|unsigned|int|char|void|uint\w+|size_t|gracht_\w+_t|gracht_handle_t|gracht_conn_t|extern|const|uint8_t|socklen_t)\b[^(=]*[;=]', s) and not s.startswith(('}', 'return', 'case', 'default')):
                if s.count('(') == s.count(')'):
                    add('delete', re.match(r'\s*', l).group(0) + ';')
            m = re.match(r'(\s*(?:\} else )?if \()(.*)(\) ?\{?)$', l)
            if m and m.group(2).count('(') == m.group(2).count(')'):
                add('never', '%s0 && (%s)%s' % m.groups())
                add('always', '%s1 || (%s)%s' % m.groups())
            for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' + 1', ''), (' - 1', ''), ('++', '--'), (' & ', ' | '), ('|= ', '= '), (' += ', ' = '), (' -= ', ' = ')):
                if a in s:
                    i = l.index(a)
                    add(a.strip() + '->' + b.strip(), l[:i] + b + l[i + len(a):])
            if re.match(r'(break|continue);', s):
                add('delete', l.replace(s, ';'))
            m = re.match(r'(\s*return )(.*);$', l)
            if m and m.group(2) in ('0', '-1', '1', 'status'):
                add('return', '%s%s;' % (m.group(1), {'0': '-1', '-1': '0', '1': '0', 'status': '0'}[m.group(2)]))
    return out


ms = mutants()
r = random.Random(A.seed)
r.shuffle(ms)
if A.list:
    from collections import Counter
    print(len(ms), Counter(m[0] for m in ms), Counter(m[2] for m in ms))
    sys.exit()
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
if A.only:
    want = {tuple(x.split(':')[:3]) for x in A.only.split(',')}
    ms = [m for m in ms if (os.path.basename(m[0]), str(m[1] + 1), m[2]) in want]

shutil.copytree(os.path.join(V, 'harness'), W + '/harness')
FL = {k: [x.replace(os.path.join(V, 'harness'), W + '/harness') for x in B.cflags(k)] for k in ('asan', 'tsan')}
INJ = ['-include', W + '/harness/shim/inject.h']
from concurrent.futures import ThreadPoolExecutor
EX = ThreadPoolExecutor(8)


def obj(kind, f):
    return '%s/%s_%s.o' % (W, kind, os.path.relpath(f, '/').replace('/', '_'))


def comp(a):
    kind, f, src = a
    rc, out = B.cc(FL[kind] + INJ * (f in SRC) + (['-I' + os.path.dirname(f)] if src != f else []) + ['-c', src, '-o', obj(kind, f).replace('.o', '.m.o' if src != f else '.o')])
    return rc, out


H = [os.path.join(W, 'harness', f) for f in os.listdir(W + '/harness') if f.endswith('.c')]
for rc, out in EX.map(comp, [(k, f, f) for k in FL for f in H + SRC]):
    if rc:
        print(out); sys.exit(1)


def jobs():
    todo = []
    seen = {}
    for prop in P.PLAN:
        for k, (kind, scen, n) in enumerate(P.PLAN[prop]):
            seen.setdefault((kind, scen), []).append((n, prop, k))
    for (kind, scen), l in seen.items():
        n = max(l)[0] * (0.8 if kind == 'asan' else 0.4)
        if scen == 'span':
            n = 1
        n = int(min(n, 30)) or 1
        _, prop, k = max(l)
        for i in range(n):
            todo.append((i / n, P.one(prop, 1, k, i, kind, scen, 1)))
    todo.sort(key=lambda x: x[0])
    return [j for _, j in todo]


JOBS = jobs()
print('%d mutants, %d executions each' % (len(ms), len(JOBS)), flush=True)
for name, n, op, old, new in ms[:A.n]:
    t = time.time()
    f = os.path.join(B.REPO, name)
    lines = open(f).read().split('\n')
    if lines[n] != old:
        continue
    lines[n] = new
    src = W + '/' + os.path.basename(f)
    open(src, 'w').write('\n'.join(lines))
    desc = '%s:%d %-8s | %s  =>  %s' % (os.path.basename(f), n + 1, op, old.strip(), new.strip())
    bad = [out for rc, out in EX.map(comp, [(k, f, src) for k in FL]) if rc]
    if bad:
        continue

    def link(k):
        objs = [obj(k, x).replace('.o', '.m.o' if x == f else '.o') for x in H + SRC]
        K.EXE[k] = '%s/h_%s' % (W, k)
        return B.cc(B.SAN[k] + objs + B.WRAP + ['-lpthread', '-o', K.EXE[k]])
    for rc, out in EX.map(link, FL):
        if rc:
            print(out[-2000:]); sys.exit(1)
    K.STOPPED.clear()
    it, lock, hits = iter(JOBS), threading.Lock(), []
    scratch = W + '/sc'
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)

    def worker():
        while not hits:
            with lock:
                j = next(it, None)
            if j is None or time.time() - t > 400:
                return
            x = K.run_one(*j, scratch)
            if x.verdict == 'viol' or (x.verdict == 'internal' and x.key != 'timeout'):
                with lock:
                    hits.append(x)
                K.stop_all()
    ths = [threading.Thread(target=worker) for _ in range(A.jobs)]
    [x.start() for x in ths]; [x.join() for x in ths]
    if hits:
        res = 'killed %s:%s [%s]' % (hits[0].kind, hits[0].scen, hits[0].key if hits[0].verdict == 'viol' else 'internal')
    else:
        c = W + '/copy'
        subprocess.run(['bash', '-c', 'mkdir -p %s && find %s -mindepth 1 -delete; cp -a /repo/. %s/' % (c, c, c)])
        shutil.copy(src, os.path.join(c, name))
        x = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1; cat %s/t.json; rm -f %s/t.json' % (c, W, W, W)], stdout=subprocess.PIPE, text=True)
        ok = '"failed": []' in x.stdout and '"passed": []' not in x.stdout
        res = 'SURVIVED' if ok else 'survived, but the tests fail'
    with open(A.out, 'a') as o:
        o.write('%-34s %3.0fs %s\n' % (res, time.time() - t, desc))
