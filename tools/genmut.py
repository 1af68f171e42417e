#!/usr/bin/env python3
"""Developer tool: mechanical mutants of the protocol compiler against C01 and C15.

genmut.py OUT [--n N] [--seed S] [--jobs J] [--list] [--only file:line:op,...]   works on copies in /tmp/gm<seed>; /repo stays as it is.
genmut.py --case DIR A B      (internal) runs the cases A..B against the copy in DIR
"""
import argparse, ast, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
if sys.argv[1] == '--case':
    os.environ['VERIF_REPO'] = sys.argv[2]
    from vlib import gencheck as GC
    base = sys.argv[2] + '.sc'
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    for s in range(int(sys.argv[3]), int(sys.argv[4])):
        for what, f, n in (('values', GC.values_case, 12), ('compiler', GC.compiler_case, 20)):
            c = f(s, n, base)
            if c.verdict != 'ok':
                print('%s %s %s %s %s' % (c.verdict, what, s, c.key, c.text[:100].replace('\n', ' ')))
                if c.verdict == 'viol':
                    sys.exit(1)
    sys.exit(0)
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--n', type=int, default=100); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--jobs', type=int, default=3)
ap.add_argument('--cases', type=int, default=40); ap.add_argument('--list', action='store_true'); ap.add_argument('--only')
A = ap.parse_args()
GEN = '/repo/generator'
FILES = ['parser.py', 'common/shared.py', 'languages/langc.py', 'passes/consolidate.py', 'passes/validate.py']


def mutants():
    out = []
    for name in FILES:
        src = open(os.path.join(GEN, name)).read()
        starts = [0]
        for l in src.split('\n'):
            starts.append(starts[-1] + len(l.encode()) + 1)
        raw = src.encode()

        def span(n):
            return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

        def text(n):
            a, b = span(n); return raw[a:b].decode()

        def add(n, op, new):
            a, b = span(n)
            if raw[a:b].decode() != new:
                out.append((name, n.lineno, op, a, b, new))
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'print' not in text(n)[:6] and 'indent_' not in text(n) and 'writeln()' not in text(n) and '"/**' not in text(n) and '" *' not in text(n) and '" */' not in text(n) and '//' not in text(n):
                add(n, 'delete', 'pass')
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                if isinstance(n, ast.AugAssign):
                    add(n, 'delete', 'pass')
            if isinstance(n, (ast.Break, ast.Continue)):
                add(n, 'delete', 'pass')
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                t = text(n.test)
                if not isinstance(n, ast.While):
                    add(n.test, 'always', '(True or (%s))' % t)
                    add(n.test, 'never', '(False and (%s))' % t)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}.get(type(n.ops[0]))
                add(n, 'compare', '(%s %s %s)' % (text(n.left), sw, text(n.comparators[0])))
            if isinstance(n, ast.BoolOp):
                j = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, 'bool', '(' + j.join('(%s)' % text(v) for v in n.values) + ')')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, 'not', text(n.operand))
            if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                add(n, 'number', str(n.value + 1))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, 'flip', str(not n.value))
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.lineno == n.end_lineno and name.endswith('langc.py'):
                t = text(n)
                for a, b in ((' < ', ' <= '), (' > ', ' >= '), (' == ', ' != '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('+= ', '= '), ('!', ''), ('&', ''), (' * ', ' + '), ('uint32_t', 'uint16_t'), ('->', '.'), ('!= ', '== '), ('1', '2'), ('0', '1')):
                    if a in t and '//' not in t and '     *' not in t and '/*' not in t and '" *' not in t and '#' not in t:
                        i = t.index(a)
                        add(n, 'text ' + a.strip(), t[:i] + b + t[i + len(a):])
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
                add(n, 'arith', '(%s %s %s)' % (text(n.left), '-' if isinstance(n.op, ast.Add) else '+', text(n.right)))
            if isinstance(n, ast.Return) and n.value is not None and text(n.value) in ('True', 'False'):
                pass
    return out


ms = mutants()
random.Random(A.seed).shuffle(ms)
if A.only:
    want = {tuple(x.split(':')) for x in A.only.split(',')}
    ms = [m for m in ms if (os.path.basename(m[0]), str(m[1]), m[2]) in want]
if A.list:
    from collections import Counter
    print(len(ms), Counter(m[0] for m in ms), Counter(m[2] for m in ms)); sys.exit()
ms = ms[:A.n]
W = '/tmp/gm%d' % A.seed
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
lock, it, tests = threading.Lock(), iter(ms), threading.Lock()
print('%d mutants' % len(ms), flush=True)


def work(k):
    c = '%s/c%d' % (W, k)
    subprocess.run(['cp', '-a', '/repo', c])
    while True:
        with lock:
            m = next(it, None)
        if m is None:
            return
        name, line, op, a, b, new = m
        t = time.time()
        raw = open(os.path.join(GEN, name), 'rb').read()
        p = os.path.join(c, 'generator', name)
        open(p, 'wb').write(raw[:a] + new.encode() + raw[b:])
        try:
            x = subprocess.run([sys.executable, __file__, '--case', c, '0', str(A.cases)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            outp, rc = x.stdout, x.returncode
        except subprocess.TimeoutExpired:
            outp, rc = 'timeout', 9
        if rc == 1 and 'viol ' in outp:
            res = 'killed ' + ' '.join(outp[outp.index('viol '):].split()[1:4])
        elif rc or outp.strip():
            res = 'INTERNAL ' + outp.strip()[:150].replace('\n', ' ')
        else:
            res = 'silent'
        if not res.startswith('killed'):
            with tests:
                x = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh %s/t%d.json >/dev/null 2>&1; cat %s/t%d.json; rm -f %s/t%d.json' % (c, W, k, W, k, W, k)], stdout=subprocess.PIPE, text=True)
                ok = '"failed": []' in x.stdout and '"passed": []' not in x.stdout
            res = ('SURVIVED ' if ok else 'testsfail ') + res
        with lock, open(A.out, 'a') as o:
            o.write('%-40s %3.0fs %s:%d:%s | %s  =>  %s\n' % (res, time.time() - t, os.path.basename(name), line, op, raw[a:b].decode().replace('\n', '\\n')[:120], new.replace('\n', '\\n')[:120]))
        open(p, 'wb').write(raw)


ts = [threading.Thread(target=work, args=(k,)) for k in range(A.jobs)]
[x.start() for x in ts]; [x.join() for x in ts]
shutil.rmtree(W, ignore_errors=True)
