#!/usr/bin/env python3
"""Developer tool: tries small changes (mutants) of /repo against the quick checks.

mutants.py FILE [ID...]   FILE calls m(id, props, file, old, new[, file, old, new]...)
Every mutant lives in a copy that is bound over /repo in a mount namespace of its own; /repo stays as it is.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/mutcopy'
M = []


def m(id, props, *edits):
    M.append((id, props.split(), [edits[i:i + 3] for i in range(0, len(edits), 3)]))


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


exec(open(sys.argv[1]).read(), {'m': m})
want = sys.argv[2:]
for id, props, edits in M:
    if want and id not in want:
        continue
    sh(['bash', '-c', 'mkdir -p %s && find %s -mindepth 1 -delete; cp -a /repo/. %s/' % (COPY, COPY, COPY)])
    bad = None
    for f, old, new in edits:
        p = os.path.join(COPY, f)
        t = open(p).read()
        if t.count(old) != 1:
            bad = '%d matches in %s of %r' % (t.count(old), f, old)
            break
        open(p, 'w').write(t.replace(old, new))
    if bad:
        print('%-34s BROKEN %s' % (id, bad), flush=True)
        continue
    x = sh(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/test.sh /tmp/muttest.json >/tmp/muttest.log 2>&1; cat /tmp/muttest.json' % COPY])
    try:
        r = json.loads(x.stdout)
    except ValueError:
        r = {'passed': [], 'failed': []}
    if r['failed'] or not r['passed']:
        print('%-34s killed by the tests (%d failed)' % (id, len(r['failed'])), flush=True)
        continue
    for p in props:
        t = time.time()
        x = sh(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s --tier quick' % (COPY, V, p)])
        v = [l for l in x.stdout.split('\n') if 'VIOLATION' in l]
        print('%-34s %s rc=%d %3.0fs %s' % (id, p, x.returncode, time.time() - t, 'CAUGHT ' + v[0][:170] if x.returncode == 1 and v else 'MISSED ' + x.stdout[-250:].replace('\n', ' | ')), flush=True)
        if x.returncode == 1:
            break
