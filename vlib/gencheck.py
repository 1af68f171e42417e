"""C01 and C15: the protocol compiler and the code it generates, on generated definitions."""
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time
from . import build as B
from . import gengen as G

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', ASAN_OPTIONS='detect_leaks=1:exitcode=98:detect_stack_use_after_return=1:strict_string_checks=1', UBSAN_OPTIONS='print_stacktrace=1')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,function', '-fno-sanitize-recover=undefined', '-g1', '-O1', '-fno-omit-frame-pointer']

WRAPPED = ['gracht_' + f for f in ('client_get_buffer', 'client_invoke', 'client_get_status_buffer', 'client_status_finalize', 'server_get_buffer', 'server_respond', 'server_send_event', 'server_broadcast_event')]


HUNG = 124               # as no exit status of the compiler
COMPILER_TIME = 120      # the largest definitions take 2 s


def parser(root, out, extra=(), hashseed='0', cwd=None, sides=('--client', '--server')):
    os.makedirs(out, exist_ok=True)
    cmd = [sys.executable, os.path.join(B.REPO, 'generator', 'parser.py'), '--service', root, '--out', out, '--lang-c'] + list(sides) + list(extra)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, PYTHONHASHSEED=hashseed), cwd=cwd or out, timeout=COMPILER_TIME)
    except subprocess.TimeoutExpired:
        return HUNG, 'the compiler was still running after %d s' % COMPILER_TIME
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def write_files(files, d):
    os.makedirs(d, exist_ok=True)
    for n, text in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), 'w') as f:
            f.write(text)


def snapshot(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), 'rb') as f:
            out[n] = f.read()
    return out


class Case:
    """verdict: ok | viol | internal"""
    def __init__(self, what):
        self.what, self.verdict, self.key, self.text, self.stats, self.features, self.ident, self.detail = what, 'ok', '', '', {}, set(), '', ''

    def bad(self, key, text, detail=''):
        self.verdict, self.key, self.text, self.detail = 'viol', key, text, detail
        return self


def expected_files(d, selected=None):
    out = set()
    for s in d.services:
        if selected is None or s.name in selected:
            out |= {s.file() + x for x in ('.h', '_client.h', '_client.c', '_server.h', '_server.c')}
    return out


def compile_case(c, d, tmp, out, flags, selected=None, run=None):
    """compiles the generated files and the driver; returns the executable or None"""
    inc = ['-I' + out, '-I' + os.path.join(B.REPO, 'include'), '-I' + B.config_dir(), '-D_GNU_SOURCE', '-w']
    svcs = [s for s in d.services if selected is None or s.name in selected]
    drv = os.path.join(tmp, 'driver.c')
    with open(drv, 'w') as f:
        f.write(G.Driver(d).make(selected))
    objs = []
    for src in [os.path.join(out, s.file() + x) for s in svcs for x in ('_client.c', '_server.c')] + [drv]:
        o = src[:-2] + '.o'
        p = subprocess.run(['clang', '-c', src, '-o', o] + flags + inc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if p.returncode:
            msg = p.stdout.decode('utf-8', 'replace')
            first = next((l for l in msg.splitlines() if 'error:' in l), msg[:200])
            if src == drv:
                c.bad('interface', 'the generated code does not provide the declared names, types or numbers: ' + first, msg[:3000])
            else:
                c.bad('not-compilable', 'the code generated for an accepted definition does not compile: ' + first, msg[:3000])
            return None
        objs.append(o)
    exe = os.path.join(tmp, 'driver')
    try:
        lib = B.library(flags)
    except B.BuildError as e:
        c.verdict, c.text = 'internal', 'the runtime does not build: ' + str(e)[:500]
        return None
    p = subprocess.run(['clang'] + flags + objs + [lib, '-Wl,' + ','.join('--wrap=' + w for w in WRAPPED), '-lpthread', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if p.returncode:
        msg = p.stdout.decode('utf-8', 'replace')
        first = next((l for l in msg.splitlines() if 'undefined' in l or 'multiple' in l), msg[:200])
        c.bad('interface', 'the generated code does not provide what was declared: ' + first, msg[:3000])
        return None
    return exe


def values_case(seed, rounds, base):
    """C01: generated code of both sides against reference values"""
    d = G.Maker(seed, size=random.Random(seed).choice([0.7, 1.0, 1.6])).make()
    c = Case('values %d' % seed)
    c.features = d.features
    tmp = tempfile.mkdtemp(prefix='g', dir=base)
    try:
        files = {n: t for n, (_, t) in d.files.items()}
        src, out = os.path.join(tmp, 'src', 's'), os.path.join(tmp, 'out')
        write_files(files, src)
        c.files = files
        c.ident = hashlib.sha256(json.dumps(files, sort_keys=True).encode()).hexdigest()[:16]
        rc, msg = parser(os.path.join(src, 'root.gr'), out)
        if rc:
            return c.bad('refused', 'a valid definition is refused: ' + msg.strip().splitlines()[-1][:300] if msg.strip() else 'a valid definition is refused', msg)
        exe = compile_case(c, d, tmp, out, SAN)
        if not exe:
            return c
        try:
            p = subprocess.run([exe, str(seed), str(rounds), str(max(1, rounds // 4))], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=180)
        except subprocess.TimeoutExpired:
            return c.bad('hang', 'the generated code does not come to an end')
        text = p.stdout.decode('utf-8', 'replace')
        for line in text.splitlines():
            f = line.split()
            if line.startswith('STAT '):
                c.stats[f[1]] = int(f[2])
            elif line.startswith('VIOL '):
                k, _, t = line[5:].partition(' | ')
                return c.bad(k, t, text[-3000:])
        if p.returncode or 'DONE' not in text:
            s = next((l for l in text.splitlines() if 'runtime error' in l or 'SUMMARY' in l), 'exit %s' % p.returncode)
            return c.bad('leak' if 'LeakSanitizer' in text else 'memory', 'generated code: ' + s, text[-4000:])
        return c
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_cases(prop, tier, seed, t0, jobs, budget, npar):
    """jobs: iterator of callables(base) -> Case"""
    base = tempfile.mkdtemp(prefix='vtg')
    res, bad, lock, stop = [], [], threading.Lock(), [False]

    def worker():
        while True:
            with lock:
                if stop[0] or time.time() - t0 > budget:
                    return
                j = next(jobs, None)
            if j is None:
                return
            c = j(base)
            with lock:
                res.append(c)
                if c.verdict == 'viol':
                    bad.append(c)
                    stop[0] = True
    try:
        ths = [threading.Thread(target=worker) for _ in range(npar)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res, bad


# ---------------------------------------------------------------------------------------------------------------
# C15: an independent reading of the grammar decides what has to be refused

BUILTIN = set(G.PRIM) | {'string'}
KEYWORDS = {'import', 'namespace', 'service', 'enum', 'define', 'struct', 'func', 'event', 'from', 'variant'}


class Wrong(Exception):
    """the definition is invalid: kind syntax | type | number | unsupported"""
    def __init__(self, kind, what):
        self.kind, self.what = kind, what
        Exception.__init__(self, kind + ': ' + what)


class Unsure(Exception):
    """nothing is specified about this definition"""


def is_id(t):
    return (t[0].isalpha() or t[0] == '_') and t not in KEYWORDS


def is_num(t):
    return t[0].isdigit() or (t[0] == '-' and t[1:].isdigit())


class Reference:
    def __init__(self, files, root):
        self.files, self.types, self.pending, self.services, self.depth = files, set(), [], 0, 0
        self.alltypes = set()
        for toks in files.values():
            for a, b in zip(toks, toks[1:]):
                if a in ('struct', 'enum', 'define') and is_id(b):
                    self.alltypes.add(b.lower())
        self.file(root)

    def file(self, name):
        self.depth += 1
        if self.depth > 20:
            raise Unsure()
        toks, self.t, self.i = self.files.get(name), None, 0
        if toks is None:
            raise Wrong('syntax', 'import of a file that is not there: ' + name)
        saved, self.t = getattr(self, 't', None), toks
        i = 0
        self.t, self.i = toks, i
        while self.i < len(self.t):
            k = self.next()
            if k == 'import':
                f = self.quote()
                f = os.path.relpath(os.path.join('/x/s', os.path.dirname(name), f if f.endswith('.gr') else f + '.gr'), '/x/s')      # the sources are in a directory named s
                keep = self.t, self.i
                self.file(f)
                self.t, self.i = keep
            elif k == 'namespace':
                self.ident()
            elif k == 'define':
                n = self.ident()
                self.want('from')
                self.quote()
                self.types.add(n.lower())
            elif k == 'enum':
                self.enum()
            elif k == 'struct':
                self.struct()
            elif k == 'service':
                self.service()
            else:
                raise Wrong('syntax', 'unexpected ' + k)
        self.depth -= 1

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def next(self):
        if self.i >= len(self.t):
            raise Wrong('syntax', 'end of file')
        self.i += 1
        return self.t[self.i - 1]

    def want(self, x):
        t = self.next()
        if t != x:
            raise Wrong('syntax', '%s where %s is expected' % (t, x))

    def ident(self):
        t = self.next()
        if not is_id(t):
            raise Wrong('syntax', '%s where a name is expected' % t)
        return t

    def number(self):
        t = self.next()
        if not is_num(t):
            raise Wrong('syntax', '%s where a number is expected' % t)
        return int(t, 0)

    def quote(self):
        t = self.next()
        if len(t) < 2 or t[0] != '"' or t[-1] != '"':
            raise Wrong('syntax', '%s where a quoted text is expected' % t)
        return t[1:-1]

    def use(self, t, what):
        if t in BUILTIN or t.lower() in self.types:
            return
        if t.lower() in self.alltypes or t.lower() in BUILTIN:
            raise Unsure()      # declared later, or spelled differently
        raise Wrong('type', '%s of unknown type %s' % (what, t))

    def enum(self):
        n = self.ident()
        self.want('{')
        while True:
            if self.peek() == '}':
                break
            self.ident()
            if self.peek() == '=':
                self.next()
                if is_id(self.peek()) if self.peek() else False:
                    self.next()
                else:
                    self.number()
            if self.peek() != ',':
                break
            self.next()
        self.want('}')
        self.types.add(n.lower())

    def struct(self):
        n = self.ident()
        self.want('{')
        self.types.add(n.lower())     # arrays of itself
        self.late = []
        while self.peek() != '}':
            if self.peek() == 'variant':
                self.next()
                v = self.ident()
                self.want('{')
                seen = []
                while self.peek() != '}':
                    t = self.ident()
                    self.ident()
                    self.want(';')
                    self.pending.append((t, 'entry of variant ' + v))
                    if t in seen:
                        self.pending.append((None, 'several entries of one type in variant ' + v))
                    seen.append(t)
                self.next()
                continue
            t = self.ident()
            if self.peek() == ';':
                self.next()
                if t in BUILTIN:
                    raise Unsure()
                self.pending.append((t, 'extension of ' + n))
                continue
            arr = False
            if self.peek() == '[':
                self.next()
                self.want(']')
                arr = True
            m = self.ident()
            self.want(';')
            self.pending.append((t, 'member ' + m))
            if arr and t == 'string':
                self.pending.append((None, 'array of strings in structure ' + n))
        self.next()

    def params(self, strings):
        self.want('(')
        out = []
        if self.peek() == ')':
            self.next()
            return out
        while True:
            t = self.ident()
            arr = False
            if self.peek() == '[':
                self.next()
                self.want(']')
                arr = True
            n = self.ident()
            out.append((t, 'parameter ' + n))
            if arr and t == 'string' and not strings:
                out.append((None, 'array of strings in parameter ' + n))
            x = self.next()
            if x == ')':
                return out
            if x != ',':
                raise Wrong('syntax', '%s in a parameter list' % x)

    def service(self):
        n = self.ident()
        self.want('(')
        num = self.number()
        self.want(')')
        self.want('{')
        used, uses, numbers = [], [], []
        if not 1 <= num <= 255:
            numbers.append('service number %d' % num)
        while self.peek() != '}':
            k = self.next()
            if k == 'func':
                f = self.ident()
                uses += self.params(False)
                self.want(':')
                uses += self.params(True)
            elif k == 'event':
                f = self.ident()
                self.want(':')
                if self.peek() == '(':
                    uses += self.params(False)
                else:
                    uses.append((self.ident(), 'event ' + f))
            else:
                raise Wrong('syntax', '%s in a service' % k)
            self.want('=')
            x = self.number()
            self.want(';')
            if not 1 <= x <= 255:
                numbers.append('number %d of %s' % (x, f))
            if x in used:
                numbers.append('number %d of %s is used twice' % (x, f))
            used.append(x)
        self.next()
        self.services += 1
        self.late_checks = getattr(self, 'late_checks', [])
        # what a service can see has to be right; syntax errors further on come first, the verdict is the same
        self.late_checks.append((list(self.pending) + uses, numbers, set(self.types)))

    def judge(self):
        """raises Wrong if the definition has to be refused"""
        unsure = False
        for uses, numbers, types in getattr(self, 'late_checks', []):
            if numbers:
                raise Wrong('number', numbers[0])
            self.types = types
            for t, what in uses:
                if t is None:
                    raise Wrong('unsupported', what)
                try:
                    self.use(t, what)
                except Unsure:
                    unsure = True
        if unsure:
            raise Unsure()


def judge(files, root='root.gr'):
    """None: nothing says that it has to be refused"""
    try:
        Reference(files, root).judge()
    except Wrong as e:
        return e
    except Unsure:
        return None
    return None


def mutate(files, r):
    """one small change to the tokens of one file; (files, description)"""
    files = {n: list(t) for n, t in files.items()}
    name = r.choice(sorted(files))
    t = files[name]
    if not t:
        return None, ''
    k = r.randrange(14)
    nums = [i for i, x in enumerate(t) if is_num(x)]
    ids = [i for i, x in enumerate(t) if is_id(x)]
    i = r.randrange(len(t))
    if k == 0:
        d = 'delete %s' % t.pop(i)
    elif k == 1:
        d = 'double %s' % t[i]
        t.insert(i, t[i])
    elif k == 2 and i + 1 < len(t):
        d = 'swap %s %s' % (t[i], t[i + 1])
        t[i], t[i + 1] = t[i + 1], t[i]
    elif k == 3:
        x = r.choice(['{', '}', '(', ')', '[', ']', ':', ';', ',', '=', '"x"', '7', 'name'] + sorted(KEYWORDS))
        d = 'insert ' + x
        t.insert(i, x)
    elif k == 4:
        x = r.choice(['{', '}', '(', ')', '[', ']', ':', ';', ',', '=', '"x"', '7', 'name'] + sorted(KEYWORDS))
        d = 'replace %s by %s' % (t[i], x)
        t[i] = x
    elif k == 5 and ids:
        i = r.choice(ids)
        d = 'rename %s' % t[i]
        t[i] = 'nosuchtype'
    elif k == 6 and ids:
        types = [j for j in ids if j + 1 < len(t) and (is_id(t[j + 1]) or t[j + 1] == '[') and t[j - 1] in ('(', ',', ';', '{', '}')]
        if types:
            i = r.choice(types)
            d = 'unknown type instead of %s' % t[i]
            t[i] = 'nosuchtype'
        else:
            return None, ''
    elif k in (7, 8) and nums:
        i = r.choice(nums)
        x = r.choice(['0', '256', '-1', '257', '1000', '65537', '0x100', '-255', '4294967297'])
        d = 'number %s instead of %s' % (x, t[i])
        t[i] = x
    elif k in (9, 10) and len(nums) > 1:
        i, j = r.choice(nums), r.choice(nums)
        d = 'number %s instead of %s' % (t[i], t[j])
        t[j] = t[i]
    elif k == 11:
        d = 'cut after %d tokens' % i
        del t[i:]
    elif k == 12 and ids:
        types = [j for j in ids if j + 2 < len(t) and is_id(t[j + 1]) and t[j - 1] in ('(', ',', ';', '{') and t[j] != 'string']
        if not types:
            return None, ''
        i = r.choice(types)
        d = 'array of strings instead of ' + t[i]
        t[i:i + 1] = ['string', '[', ']']
    elif k == 13 and 'variant' in t:
        v = r.choice([j for j, x in enumerate(t) if x == 'variant'])
        end = t.index('}', v) if '}' in t[v:] else len(t)
        entries = [j for j in range(v + 3, end - 2, 3) if is_id(t[j]) and t[j + 2] == ';']
        if not entries:
            return None, ''
        i = r.choice(entries)
        d = 'another %s in a variant' % t[i]
        if len(entries) > 1 and r.randrange(2):
            j = r.choice([x for x in entries if x != i])
            t[j] = t[i]
        else:
            j = r.choice(entries)
            t[j:j] = [t[i], 'zz', ';']
    else:
        return None, ''
    return files, name + ': ' + d


BROKEN_TEXT = [('unterminated comment at the end', lambda s, r: s + '\n/* no end'), ('unterminated quote at the end', lambda s, r: s + '\nimport "types'),
               ('unterminated quote around everything that follows', lambda s, r: s + '\ndefine a from "b\n'),
               ('stray character', lambda s, r: s + '\n' + r.choice(['@', '$', '+', '\'', '\\', '%', '!', '?', '<', '#', '~', '&'])),
               ('number without digits', lambda s, r: s + '\nenum zz { A = - }\n'), ('number without digits', lambda s, r: s + '\nenum zz { A = 0x }\n'),
               ('two signs', lambda s, r: s + '\nenum zz { A = --5 }\n')]


def text_of(toks):
    return ' '.join('\n' + t if t in KEYWORDS else t for t in toks) + '\n'


def refused(c, tmp, texts, what, n):
    src, out = os.path.join(tmp, 'm%d' % n, 's'), os.path.join(tmp, 'mo%d' % n)
    write_files(texts, src)
    rc, msg = parser(os.path.join(src, 'root.gr'), out)
    left = sorted(os.listdir(out))
    shutil.rmtree(os.path.dirname(src))
    shutil.rmtree(out)
    c.stats['refused' if rc else 'accepted'] = c.stats.get('refused' if rc else 'accepted', 0) + 1
    if rc == HUNG:
        return c.bad('hang', 'an invalid definition is neither refused nor accepted within %d s: %s' % (COMPILER_TIME, what), json.dumps(texts))
    if rc == 0:
        return c.bad('accepted', 'an invalid definition is accepted: ' + what, json.dumps(texts))
    if not msg.strip():
        return c.bad('silent', 'an invalid definition is refused without a message: ' + what, json.dumps(texts))
    if left:
        return c.bad('output', 'an invalid definition leaves output behind (%s): %s' % (' '.join(left)[:100], what), json.dumps(texts))
    return None


def together(c, seed, d, tmp, out, r):
    """a second definition with other namespaces and otherwise the same names goes into one program with the first"""
    d2 = G.Maker(seed, size=r.choice([0.7, 1.0, 1.6]), prefix='tw_').make()
    src, out2 = os.path.join(tmp, 'tw', 's'), os.path.join(tmp, 'twout')
    write_files({n: t for n, (_, t) in d2.files.items()}, src)
    both = json.dumps([{n: t for n, (_, t) in x.files.items()} for x in (d, d2)])
    rc, msg = parser(os.path.join(src, 'root.gr'), out2)
    if rc:
        return c.bad('refused', 'a valid definition is refused: ' + (msg.strip().splitlines() or [''])[-1][:300], msg + both)
    heads = [s.file() + x for s in d.services + d2.services for x in ('_client.h', '_server.h')]
    heads += r.sample(heads, 2)
    r.shuffle(heads)
    tu = os.path.join(tmp, 'both.c')
    with open(tu, 'w') as f:
        f.write(''.join('#include "%s"\n' % h for h in heads) + 'int both;\n')
    inc = ['-I' + out, '-I' + out2, '-I' + os.path.join(B.REPO, 'include'), '-I' + B.config_dir(), '-D_GNU_SOURCE', '-w']
    objs = [os.path.join(out, s.file() + x) for s in d.services for x in ('_client.o', '_server.o')]
    for s in [tu] + [os.path.join(out2, s.file() + x) for s in d2.services for x in ('_client.c', '_server.c')]:
        objs.append(s[:-2] + '.o')
        p = subprocess.run(['clang', '-c', '-O0', s, '-o', objs[-1]] + inc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if p.returncode:
            text = p.stdout.decode('utf-8', 'replace')
            return c.bad('not-compilable', 'the code generated for two definitions cannot be used in one program: ' + next((l for l in text.splitlines() if 'error:' in l), text[:200]), text[:3000] + both)
    p = subprocess.run(['ld', '-r'] + objs + ['-o', os.path.join(tmp, 'linked.o')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        text = p.stdout.decode('utf-8', 'replace')
        return c.bad('interface', 'the code generated for two definitions cannot be linked into one program: ' + text[:300], text[:3000] + both)
    c.stats['used_together'] = 1
    return None


def compiler_case(seed, mutants, base):
    """C15: one definition, accepted in every way, and variations of it that have to be refused"""
    r = random.Random(seed * 7919 + 11)
    d = G.Maker(seed, size=r.choice([0.7, 1.0, 1.6])).make()
    c = Case('compiler %d' % seed)
    c.features = set(d.features)
    tmp = tempfile.mkdtemp(prefix='c', dir=base)
    try:
        files = {n: t for n, (_, t) in d.files.items()}
        toks = {n: t for n, (t, _) in d.files.items()}
        c.files = files
        c.ident = hashlib.sha256(json.dumps(files, sort_keys=True).encode()).hexdigest()[:16]
        if judge(toks) is not None:
            c.verdict, c.text = 'internal', 'the reference refuses a definition made to be valid: %s' % judge(toks)
            return c
        src, out = os.path.join(tmp, 'src', 's'), os.path.join(tmp, 'out')
        write_files(files, src)
        root = os.path.join(src, 'root.gr')
        rc, msg = parser(root, out)
        if rc:
            return c.bad('refused', 'a valid definition is refused: ' + (msg.strip().splitlines() or [''])[-1][:300], msg + json.dumps(files))
        first = snapshot(out)
        if set(first) != expected_files(d):
            return c.bad('files', 'produced files differ from the services declared: %s' % ' '.join(sorted(set(first) ^ expected_files(d)))[:200], json.dumps(files))
        for s in d.services:
            want = {s.macro() + '_ID': s.num}
            for f in s.funcs:
                want['%s_%s_ID' % (s.macro(), f[0].upper())] = f[3]
            for e in s.events:
                want['%s_EVENT_%s_ID' % (s.macro(), e[0].upper())] = e[2]
            import re
            got = {m.group(1): int(m.group(2), 0) for m in re.finditer(r'^\s*#\s*define\s+(SERVICE_\w+_ID)\s+\(?\s*([0-9a-fA-Fx]+)', first[s.file() + '.h'].decode(), re.M)}
            got = {k: v for k, v in got.items() if k.startswith(s.macro() + '_')}
            if got != want:
                return c.bad('numbers', 'the header of %s does not have exactly the declared numbers: %s' % (s.name, sorted(set(got.items()) ^ set(want.items()))[:4]), json.dumps(files))
        # again, elsewhere, with other hash orders
        for n, hs in enumerate(('1', '2', 'random')):
            o = os.path.join(tmp, 'again%d' % n)
            rc, msg = parser(os.path.relpath(root, tmp) if n == 1 else root, o, hashseed=hs, cwd=tmp)
            if rc or snapshot(o) != first:
                return c.bad('differs', 'compiling the same definition again gives another result (%s)' % ', '.join(x for x in set(first) | set(snapshot(o)) if first.get(x) != snapshot(o).get(x))[:200], json.dumps(files))
            shutil.rmtree(o)
        c.stats['repeats'] = 3
        # one service only
        sel = r.choice(d.services).name
        o = os.path.join(tmp, 'sel')
        rc, msg = parser(root, o, extra=['--include', sel])
        got = snapshot(o)
        if rc or set(got) != expected_files(d, {sel}) or any(first[x] != got[x] for x in got):
            return c.bad('selection', 'selecting service %s produces other files: %s' % (sel, ' '.join(sorted(got))[:200]), json.dumps(files))
        # several, in any order; one side only; tracing
        some = r.sample([s.name for s in d.services], r.randint(1, len(d.services)))
        side = r.choice([('--client',), ('--server',), ()])
        kept = {s.file() + x for s in d.services for x in ('.h', '_client.h', '_client.c', '_server.h', '_server.c') if x == '.h' or '--' + x[1:7] in side}
        for n, (extra, sides, want) in enumerate(((['--include', ','.join(some)], ('--server', '--client'), expected_files(d, set(some))), ([], side, kept), (['--trace'], ('--client', '--server'), set(first)))):
            o = os.path.join(tmp, 'var%d' % n)
            rc, msg = parser(root, o, extra=extra, sides=sides)
            got = snapshot(o)
            if rc or set(got) != want or any(first[x] != got[x] for x in got):
                return c.bad('selection', 'compiling with %s produces other files: %s' % (' '.join(extra + list(sides)), ' '.join(sorted(x for x in set(got) ^ want or [y for y in got if first[y] != got[y]]))[:200]), json.dumps(files))
            shutil.rmtree(o)
        exe = compile_case(c, d, tmp, out, ['-O0'])
        if not exe:
            c.detail += json.dumps(files)
            return c
        c.stats['compiled_files'] = len(first)
        if seed % 2 == 0 and together(c, seed, d, tmp, out, r):
            return c
        if seed % 3 == 0:
            for f in sorted(first):
                if f.endswith('.c'):
                    p = subprocess.run(['gcc', '-fsyntax-only', '-std=gnu11', '-w', '-I' + out, '-I' + os.path.join(B.REPO, 'include'), '-I' + B.config_dir(), os.path.join(out, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if p.returncode:
                        return c.bad('not-compilable', 'gcc refuses generated code: ' + p.stdout.decode('utf-8', 'replace')[:400], json.dumps(files))
            c.stats['gcc'] = 1
        # invalid variations
        done, tries, kinds = 0, 0, c.stats
        while done < mutants and tries < mutants * 20:
            tries += 1
            if r.randrange(12) == 0:
                what, fn = r.choice(BROKEN_TEXT)
                texts = {n: text_of(t) for n, t in toks.items()}
                n = r.choice(sorted(texts))
                if n != 'root.gr' and os.path.basename(n)[:-3] not in ''.join(toks['root.gr']):
                    continue
                texts[n] = fn(texts[n], r)
                kind = 'text'
            else:
                m, what = mutate(toks, r)
                if m is None:
                    continue
                if r.randrange(6) == 0:
                    m2, w2 = mutate(m, r)
                    if m2:
                        m, what = m2, what + ' and ' + w2
                v = judge(m)
                if v is None:
                    continue
                texts, kind, what = {n: text_of(t) for n, t in m.items()}, v.kind, '%s (%s)' % (v, what)
            done += 1
            c.stats['invalid_' + kind] = c.stats.get('invalid_' + kind, 0) + 1
            if refused(c, tmp, texts, what, done):
                return c
        return c
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------
PLAN = {'C01': {'quick': (200, 24), 'thorough': (100000, 60)}, 'C15': {'quick': (130, 24), 'thorough': (100000, 60)}}


def one(prop, seed, n, base):
    return values_case(seed, n, base) if prop == 'C01' else compiler_case(seed, n, base)


def check(prop, tier, seed, t0):
    import check as K
    count, n = PLAN[prop][tier]
    budget = float(os.environ.get('VERIF_BUDGET', '300' if tier == 'quick' else '840'))
    r = random.Random('%s-%d' % (prop, seed))
    seeds = [r.randrange(1 << 30) for _ in range(count)]
    jobs = ((lambda base, s=s: one(prop, s, n, base)) for s in seeds)
    res, bad = run_cases(prop, tier, seed, t0, jobs, budget, int(os.environ.get('VERIF_JOBS', '8')))
    stats, feats, idents = {}, {}, set()
    for c in res:
        for k, v in c.stats.items():
            stats[k] = stats.get(k, 0) + v
        for f in c.features:
            feats[f] = feats.get(f, 0) + 1
        if c.verdict == 'ok' and c.ident:
            idents.add(c.ident)
    internal = [c for c in res if c.verdict == 'internal']
    ok = [c for c in res if c.verdict == 'ok']
    if prop == 'C01':
        rule = ('one evaluation is one generated protocol definition whose generated client and server code was compiled and executed under ASan/UBSan/LSan on random values of every declared message, '
                'each message encoded on one side into a buffer of exactly the size it needs and decoded on the other; distinct definitions (by content) whose execution ran to the end are counted')
    else:
        rule = ('one evaluation is one generated definition: accepted, compiled for C, compared with the declared numbers and with repeated, relocated and selective runs, plus invalid variations of it that '
                'an independent reading of the grammar says must be refused; distinct definitions (by content) for which all of that was observed are counted')
    cov = {'evaluations': len(res), 'distinct_nontrivial': len(idents), 'rule': rule,
           'samples': [{'case': c.what, 'features': sorted(c.features), 'observed': c.stats, 'definition': {k: v[:1500] for k, v in c.files.items()}} for c in ok[:4]],
           'observed': stats, 'definitions_by_feature': feats, 'without_verdict': [c.text[:200] for c in internal][:5]}
    K.write_evidence(prop, tier, seed, time.time() - t0, cov, len(bad), [
        'Linux x86-64, clang 18; identifiers are usable in C and distinct from each other; enumerations have values that fit 32 bits',
        'definitions and values are sampled, not enumerated'])
    if bad:
        c = bad[0]
        d = os.path.join(K.HERE, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, c.what.replace(' ', '-')))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': 'gen', 'seed': int(c.what.split()[1]), 'n': n, 'key': c.key, 'text': c.text, 'definition': getattr(c, 'files', {}), 'detail': c.detail[-8000:]}, f, indent=1)
        print('%s: %s [%s] %s' % (prop, c.what, c.key, c.text[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if internal:
        print('%s: no verdict: %s' % (prop, internal[0].text))
        return 2
    must = ('messages', 'bytes', 'copies', 'small_outputs', 'variants_set', 'over_sockets') if prop == 'C01' else ('refused', 'compiled_files', 'invalid_syntax', 'invalid_type', 'invalid_number', 'invalid_text', 'repeats', 'used_together')
    vac = [k for k in must if not stats.get(k)]
    if vac or len(ok) < 5:
        print('%s: nothing observed: %s' % (prop, vac))
        return 2
    print('%s: held on %d definitions (%d distinct), %.1f s' % (prop, len(res), len(idents), time.time() - t0))
    return 0


def replay(j):
    base = tempfile.mkdtemp(prefix='vtg')
    try:
        c = one(j['property'], j['seed'], j['n'], base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('%s %s %s\n%s' % (c.verdict, c.key, c.text, c.detail[-4000:]))
    return 1 if c.verdict == 'viol' else 0
