"""Random protocol definitions (as a model), their text, and a C driver that checks the code generated for them.
Nothing here looks at the generator under test: the naming rules come from the documentation and the public headers."""
import os, random

PRIM = {'uint8': 'uint8_t', 'int8': 'int8_t', 'uint16': 'uint16_t', 'int16': 'int16_t', 'uint32': 'uint32_t', 'int32': 'int32_t', 'uint64': 'uint64_t', 'int64': 'int64_t',
        'uint': 'unsigned int', 'int': 'int', 'long': 'long', 'ulong': 'size_t', 'bool': 'uint8_t', 'float': 'float', 'double': 'double'}
DEFS = [('uint32_t', 'stdint.h'), ('int64_t', 'stdint.h'), ('uint8_t', 'stdint.h'), ('time_t', 'time.h'), ('off_t', 'sys/types.h'), ('pid_t', 'sys/types.h'), ('clock_t', 'time.h'), ('socklen_t', 'sys/socket.h')]


class T:
    """a type: kind in prim, string, enum, struct, def"""
    def __init__(self, kind, name, obj=None):
        self.kind, self.name, self.obj = kind, name, obj

    def c(self):
        if self.kind == 'prim':
            return PRIM[self.name]
        if self.kind == 'string':
            return 'char*'
        if self.kind == 'enum':
            return 'enum ' + self.obj.cname()
        if self.kind == 'struct':
            return 'struct ' + self.obj.cname()
        return self.name

    def tag(self):
        return 'bool' if self.name == 'bool' else self.kind if self.kind in ('string',) else self.c().replace(' ', '_').replace('*', 'p')


class Enum:
    def __init__(self, ns, name, values):
        self.ns, self.name, self.values = ns, name, values    # (name, explicit text or None, number)

    def cname(self):
        return self.ns.lower() + '_' + self.name.lower()


class Struct:
    def __init__(self, ns, name):
        self.ns, self.name, self.items = ns, name, []          # ('m', T, name, is_array) | ('ext', Struct) | ('var', name, [(T, name)])

    def cname(self):
        return self.ns.lower() + '_' + self.name.lower()

    def zero(self):
        """has no size in C; arrays of such a thing have no address either"""
        return all(i[0] == 'm' and not i[3] and i[1].kind == 'struct' and i[1].obj.zero() for i in self.flat())

    def flat(self):
        out = []
        for i in self.items:
            if i[0] == 'ext':
                out += i[1].flat()
            else:
                out.append(i)
        return out


class Service:
    def __init__(self, ns, name, num):
        self.ns, self.name, self.num, self.funcs, self.events = ns, name, num, [], []   # (name, req, resp, id) ; (name, params, id, shorthand)

    def file(self):
        return self.ns + '_' + self.name + '_service'

    def cl(self):
        return self.ns.lower() + '_' + self.name.lower()

    def sv(self):
        return self.ns + '_' + self.name

    def macro(self):
        return 'SERVICE_' + self.ns.upper() + '_' + self.name.upper()


class Def:
    """a set of files; files[0] is the root"""
    def __init__(self):
        self.files, self.services, self.structs, self.enums, self.features = {}, [], [], [], set()


class Maker:
    def __init__(self, seed, size=1.0, only_valid_features=None, prefix=''):
        self.r = random.Random(seed)
        self.prefix = prefix        # of every namespace
        self.n = 0
        self.size = size
        self.d = Def()
        self.skip = only_valid_features or set()
        self.begun = {}

    def fresh(self, base):
        # names that begin with other names, declared before or after those
        k = self.r.randrange(16)
        if self.begun.get(base) and k < 6:
            return self.begun[base].pop()
        name = self.fresh1(base)
        if k == 6:
            self.begun.setdefault(base, []).append(name)
            name += 'x'
        elif k == 7:
            self.begun.setdefault(base, []).append(name + 'x')
        return name

    def fresh1(self, base):
        self.n += 1
        s = '%s%d' % (base, self.n)
        k = self.r.randrange(12)
        if k == 0:
            return s.capitalize()
        if k == 1:
            return '_' + s if base not in ('ns', 'svc') else s
        if k == 2:
            return s + '_x'
        return s

    # ---- text ----
    def ws(self, need=False):
        r = self.r.randrange(40)
        if r == 0:
            return ' // %s { } ; "\n' % self.r.choice(['note', 'func x() : () = 1;', '/* x', '*/'])
        if r == 1:
            return ' /* %s */ ' % self.r.choice(['block', 'multi\nline\n', '** *', '// }', '"'])
        if r == 2:
            return '\n\t '
        if r == 3:
            return '  '
        return ' ' if need or r < 20 else ''

    def text(self, toks):
        out = []
        prev = ''
        for t in toks:
            glue = bool(prev) and (prev[-1].isalnum() or prev[-1] == '_') and (t[0].isalnum() or t[0] in '_-')
            out.append(self.ws(glue))
            if glue and not out[-1].strip(' ') == '' and False:
                pass
            out.append(t)
            prev = t
            if t in (';', '{', '}'):
                out.append('\n')
                prev = ''
        return ''.join(out) + '\n'

    def num(self, v):
        k = self.r.randrange(6)
        if v >= 0 and k == 0:
            return '0x%X' % v
        if v >= 0 and k == 1 and 'lowhex' not in self.skip:
            return '0x%x' % v
        return str(v)

    # ---- model ----
    def make_enum(self, ns, toks):
        e = Enum(ns, self.fresh('en'), [])
        cur = -1
        toks += ['enum', e.name, '{']
        n = self.r.randint(1, 5)
        for i in range(n):
            name = self.fresh('V')
            toks.append(name)
            if self.r.randrange(3) == 0:
                cur = self.r.choice([0, 1, -1, -2, 255, 256, 1000, -70000, 2147483647 - 10, -2147483647, self.r.randint(-1000, 1000)])
                txt = self.num(cur)
                toks += ['=', txt]
                e.values.append((name, txt, cur))
            else:
                cur += 1
                e.values.append((name, None, cur))
            if i < n - 1 or self.r.randrange(5) == 0:
                toks.append(',')
        toks.append('}')
        self.d.enums.append(e)
        self.enums.append(e)

    def pick(self, strings=True, structs=True):
        k = self.r.randrange(10)
        if k < 4:
            return T('prim', self.r.choice(list(PRIM)))
        if k < 6 and strings:
            return T('string', 'string')
        if k == 6 and self.enums:
            e = self.r.choice(self.enums)
            return T('enum', e.name, e)
        if k == 7 and self.defs:
            return T('def', self.r.choice(self.defs))
        if k >= 8 and structs and self.structs:
            s = self.r.choice(self.structs)
            return T('struct', s.name, s)
        return T('prim', self.r.choice(list(PRIM)))

    def elem(self, t):
        return T('prim', 'int') if t.kind == 'struct' and t.obj.zero() else t

    def make_struct(self, ns, toks):
        s = Struct(ns, self.fresh('st'))
        toks += ['struct', s.name, '{']
        n = 0 if self.r.randrange(14) == 0 else self.r.randint(1, 6)
        for _ in range(n):
            k = self.r.randrange(12)
            if k == 0 and self.structs:
                x = self.r.choice(self.structs)
                if any(i[0] == 'ext' for i in s.items) and self.r.randrange(2):
                    x = self.r.choice(self.structs)
                names = {m[2] if m[0] == 'm' else m[1] for m in s.flat()}
                if names & {m[2] if m[0] == 'm' else m[1] for m in x.flat()} or len(x.flat()) + len(s.flat()) > 14:
                    continue
                s.items.append(('ext', x))
                toks += [x.name, ';']
                self.d.features.add('extension')
                if not x.flat():
                    self.d.features.add('empty-extension')
            elif k == 1:
                vn = self.fresh('va')
                ents = []
                seen = set()
                for _ in range(self.r.randint(1, 4) if self.r.randrange(8) else 20):
                    t = self.pick()
                    key = t.c() if t.kind != 'prim' else t.name
                    if t.name.lower() in seen:
                        continue
                    seen.add(t.name.lower())
                    ents.append((t, self.fresh('e')))
                s.items.append(('var', vn, ents))
                toks += ['variant', vn, '{']
                for t, en in ents:
                    toks += [t.name, en, ';']
                toks.append('}')
                self.d.features.add('variant')
            elif k in (2, 3, 4):
                t = self.elem(self.pick(strings=False))
                if self.r.randrange(8) == 0:
                    t = T('struct', s.name, s)
                    self.d.features.add('self-array')
                nm = self.fresh('a')
                s.items.append(('m', t, nm, True))
                toks += [t.name, '[', ']', nm, ';']
            else:
                t = self.pick()
                nm = self.fresh('m')
                s.items.append(('m', t, nm, False))
                toks += [t.name, nm, ';']
        toks.append('}')
        if not s.flat():
            self.d.features.add('empty-struct')
        self.d.structs.append(s)
        self.structs.append(s)

    def params(self, n, strarr):
        ps = []
        for _ in range(n):
            arr = self.r.randrange(3) == 0
            t = self.pick(strings=not arr or (strarr and 'strarr' not in self.skip))
            t = self.elem(t) if arr else t
            ps.append((t, self.fresh('p'), arr))
            if arr and t.kind == 'string':
                self.d.features.add('string-array-response')
        return ps

    def ptoks(self, ps):
        out = ['(']
        for i, (t, n, a) in enumerate(ps):
            if i:
                out.append(',')
            out += [t.name] + (['[', ']'] if a else []) + [n]
        return out + [')']

    def make_service(self, ns, toks, used):
        num = self.r.choice([x for x in [1, 2, 3, 31, 32, 33, 100, 127, 128, 200, 254, 255, self.r.randint(1, 254)] if x not in used])
        used.add(num)
        s = Service(ns, self.fresh('svc'), num)
        toks += ['service', s.name, '(', self.num(num), ')', '{']
        ids = self.r.sample(range(1, 256), 14)
        if self.r.randrange(3) == 0:
            ids[:4] = self.r.sample([1, 255, 128, 127], 4)
            ids = list(dict.fromkeys(ids))
        todo = ['f'] * self.r.randint(0, 4) + ['e'] * self.r.randint(0, 3)
        self.r.shuffle(todo)
        for k in todo:
            i = ids.pop(0)
            if k == 'f':
                req = self.params(self.r.choice([0, 1, 1, 2, 3, 5]), False)
                resp = self.params(self.r.choice([0, 0, 1, 1, 2, 4]), True)
                nm = self.fresh('f')
                s.funcs.append((nm, req, resp, i))
                toks += ['func', nm] + self.ptoks(req) + [':'] + self.ptoks(resp) + ['=', self.num(i), ';']
            else:
                nm = self.fresh('ev')
                short = self.r.randrange(4) == 0
                if short:
                    t = self.pick()
                    ps = [(t, None, False)]
                    toks += ['event', nm, ':', t.name, '=', self.num(i), ';']
                    if t.kind == 'prim':
                        self.d.features.add('event-shorthand-builtin')
                else:
                    ps = self.params(self.r.choice([0, 1, 1, 2, 3]), False)
                    if not ps:
                        self.d.features.add('event-empty')
                    toks += ['event', nm, ':'] + self.ptoks(ps) + ['=', self.num(i), ';']
                s.events.append((nm, ps, i, short))
        toks.append('}')
        s.known = {x.cname() for x in self.structs}
        self.d.services.append(s)

    def make_file(self, path, ns, imports, services, used):
        """imports: paths of files, from the directory of the root file"""
        toks = []

        def imp():
            for i in imports:
                p = os.path.relpath('/x/s/' + i, '/x/s/' + os.path.dirname(path))
                if self.r.randrange(6) == 0 and not p.startswith('.'):
                    p = './' + p
                toks.extend(['import', '"%s"' % (p[:-3] if self.r.randrange(2) else p)])
        late = ns != 'anon' and self.r.randrange(4) == 0        # the namespace of a file does not reach the files it imports
        if late:
            self.d.features.add('namespace-before-import')
            toks += ['namespace', ns]
        imp()
        if ns != 'anon' and not late:
            toks += ['namespace', ns]
        for _ in range(self.r.randint(0, 2)):
            d = self.r.choice(DEFS)
            if d[0] in self.defs:
                if self.r.randrange(2) == 0:
                    continue
                self.d.features.add('defined-again')
            toks += ['define', d[0], 'from', '"%s"' % d[1]]
            self.defs.append(d[0])
        plan = ['e'] * self.r.randint(0, 2) + ['s'] * int(self.r.randint(0, 4) * self.size + 0.5)
        self.r.shuffle(plan)
        again = self.r.randrange(len(plan) * 6 + 6)
        for n, k in enumerate(plan):
            if n == again and n:
                ns = self.fresh_ns()
                toks += ['namespace', ns]
                self.d.features.add('second-namespace')
            if k == 'e':
                self.make_enum(ns, toks)
            else:
                self.make_struct(ns, toks)
        for i in range(services):
            self.make_service(ns, toks, used)
            if self.r.randrange(3) == 0:
                self.make_struct(ns, toks)
        self.d.files[path] = (toks, self.text(toks))

    def fresh_ns(self):
        return self.prefix + self.fresh('ns')

    def make(self):
        self.defs, self.enums, self.structs = [], [], []
        used = set()
        imports = []
        anon = 'anon' if not self.prefix else self.prefix + 'anon'
        dirs = ['', '', '', 'lib/', 'my.group/', 'a/b/', '../%s/' % 'shared']
        if self.r.randrange(2):
            nsn = self.fresh_ns() if self.r.randrange(2) else anon
            tp = self.r.choice(dirs) + 'types.gr'
            self.make_file(tp, nsn, [], 0, used)
            imports.append(tp)
            self.d.features.add('import')
            if self.r.randrange(2):
                mp = self.r.choice(dirs) + 'more.gr'
                self.make_file(mp, self.fresh_ns() if self.r.randrange(4) else anon, [tp] if self.r.randrange(2) else [], self.r.randint(0, 1), used)
                imports.append(mp)
                self.d.features.add('second-import')
            if any('/' in i for i in imports):
                self.d.features.add('import-from-directory')
        self.make_file('root.gr', self.fresh_ns() if self.r.randrange(8) else anon, imports, self.r.randint(1, 2), used)
        return self.d


# ------------------------------------------------------------------ the C driver
PRE = r'''
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <errno.h>
#include <unistd.h>
#include <gracht/types.h>
#include <gracht/client.h>
#include <gracht/server.h>
static int big_left, mid_left, live, tiny, long_left; static uint64_t rs; static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 8; }
static uint32_t below(uint32_t n) { return (uint32_t)(rnd() % n); }
static void seed(uint64_t s) { rs = s * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!rs) rs = 1; rnd(); rnd(); big_left = !live; mid_left = 2; tiny = 0; long_left = rnd() % 30 == 0; }
static long long n_msgs, n_bytes, n_vals, n_copies, n_small, n_var[3];
static void viol(const char* key, const char* what, long long a, long long b) { printf("VIOL %s | %s (%lld, %lld)\n", key, what, a, b); fflush(stdout); _Exit(10); }
#define CK(c, key, what, a, b) do { if (!(c)) viol(key, what, (long long)(a), (long long)(b)); } while (0)
static long long n_big, n_mid;
static uint32_t cnt(void) { n_vals++; if (tiny) return below(16) == 0; if (big_left && below(250) == 0) { big_left--; n_big++; return 65500 + below(100); } if (mid_left && below(50) == 0) { mid_left--; n_mid++; return 240 + below(300); } switch (below(8)) { case 0: case 1: return 0; case 2: return 1; case 3: return 40 + below(60); default: return below(9); } }
/* very long arrays of structures have elements with next to nothing in them */
static uint32_t cnt_s(int depth, size_t size) { if (depth > 2 || tiny) return 0; if (depth < 1 && big_left && size < 128 && long_left && below(2)) { big_left--; n_big++; tiny = 1; return 65500 + below(100); } if (depth < 1 && mid_left && below(40) == 0) { mid_left = 0; n_mid++; return 250 + below(20); } return depth > 1 ? below(2) : below(3) ? below(4) : 0; }
#define GEN_INT(tag, type) static type gen_##tag(int d) { (void)d; n_vals++; switch (below(6)) { case 0: return (type)0; case 1: return (type)-1; case 2: return (type)((uint64_t)1 << (sizeof(type) * 8 - 1)); case 3: return (type)(((uint64_t)1 << (sizeof(type) * 8 - 1)) - 1); default: return (type)(rnd() << 8 ^ rnd()); } } static int eq_##tag(type a, type b) { return a == b; }
#define GEN_FLT(tag, type) static type gen_##tag(int d) { (void)d; n_vals++; switch (below(5)) { case 0: return (type)0; case 1: return (type)-0.0; case 2: return (type)1 / 3; case 3: return (type)-1e30; default: return (type)((double)(int64_t)rnd() / 3.7); } } static int eq_##tag(type a, type b) { return !memcmp(&a, &b, sizeof a); }
static char* gen_string(int d) { (void)d; n_vals++; uint32_t k = below(10), n = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 300 + below(300) : below(40); if (k == 3) return NULL; if (tiny) n &= 3; if (k == 4 && big_left && below(20) == 0) { big_left--; n_big++; n = 65500 + below(100); } char* s = malloc(n + 1); for (uint32_t i = 0; i < n; i++) s[i] = (char)(1 + below(255)); s[n] = 0; return s; }
static int eq_string(const char* a, const char* b) { return !strcmp(a ? a : "", b ? b : ""); }
static size_t slen(const char* s) { return s ? strlen(s) : 0; }
/* ---- the runtime as the generated code sees it, with buffers of exactly the size of the message; with live set, the real runtime with a server thread ---- */
#define HDR GRACHT_MESSAGE_HEADER_SIZE
#define BIG (1u << 26)
static char* big; static char* exact; static uint32_t exact_size; static int measuring; static uint32_t got_size; static char* captured; static uint32_t captured_size; static __thread void* captured_ctx; static __thread int captured_conn, captured_kind, n_sent; static long long n_live;
#define REAL(type, name, params) type __real_##name params; type __wrap_##name params
#define LIVE(kind, expr) if (live) { n_sent++; captured_kind = kind; return expr; }
static int give(gracht_buffer_t* b) { b->index = 0; if (measuring) { b->data = big; } else { exact = malloc(exact_size); b->data = exact; } return 0; }
static int take(gracht_buffer_t* b, int kind) {
    n_sent++; captured_kind = kind;
    if (measuring) { got_size = b->index; CK(got_size >= HDR && got_size < BIG, "encode", "size of an encoded message", got_size, 0); return 0; }
    CK(b->data == exact, "encode", "another buffer was handed back", 0, 0); CK(b->index == exact_size, "encode", "encoding the same values twice gives different sizes", b->index, exact_size);
    CK(!memcmp(big, exact, exact_size), "encode", "encoding the same values twice gives different bytes", exact_size, 0);
    free(captured); captured = exact; captured_size = exact_size; exact = NULL; n_msgs++; n_bytes += captured_size; return 0;
}
REAL(int, gracht_client_get_buffer, (gracht_client_t* c, gracht_buffer_t* b)) { return live ? __real_gracht_client_get_buffer(c, b) : give(b); }
REAL(int, gracht_client_invoke, (gracht_client_t* c, struct gracht_message_context* x, gracht_buffer_t* b)) { captured_ctx = x; LIVE(1, __real_gracht_client_invoke(c, x, b)) return take(b, 1); }
REAL(int, gracht_server_get_buffer, (gracht_server_t* c, gracht_buffer_t* b)) { return live ? __real_gracht_server_get_buffer(c, b) : give(b); }
REAL(int, gracht_server_respond, (struct gracht_message* m, gracht_buffer_t* b)) { captured_ctx = m; LIVE(2, __real_gracht_server_respond(m, b)) return take(b, 2); }
REAL(int, gracht_server_send_event, (gracht_server_t* s, gracht_conn_t c, gracht_buffer_t* b, unsigned f)) { captured_conn = (int)c; LIVE(3, __real_gracht_server_send_event(s, c, b, f)) return take(b, 3); }
REAL(int, gracht_server_broadcast_event, (gracht_server_t* s, gracht_buffer_t* b, unsigned f)) { LIVE(4, __real_gracht_server_broadcast_event(s, b, f)) return take(b, 4); }
static char* reading; static uint32_t reading_size; static int n_final, status_code;
REAL(int, gracht_client_get_status_buffer, (gracht_client_t* c, struct gracht_message_context* x, gracht_buffer_t* b)) { if (live) return __real_gracht_client_get_status_buffer(c, x, b); if (status_code != GRACHT_MESSAGE_COMPLETED) return status_code; reading = malloc(captured_size); memcpy(reading, captured, captured_size); reading_size = captured_size; b->data = reading; b->index = HDR; return GRACHT_MESSAGE_COMPLETED; }
REAL(int, gracht_client_status_finalize, (gracht_client_t* c, gracht_buffer_t* b)) { n_final++; if (live) return __real_gracht_client_status_finalize(c, b); CK(b->data == reading, "decode", "another buffer is released than was handed out", 0, 0); CK(b->index == reading_size, "decode", "reading a response consumes another number of bytes than were written", b->index, reading_size); memset(reading, 0xEE, reading_size); free(reading); reading = NULL; return 0; }
static struct gracht_message msgobj; static struct gracht_message_context ctxobj; static gracht_client_t* CL = (void*)0x1000; static gracht_server_t* SV = (void*)0x2000; static int CONN = 42;
static uint64_t cur_seed; static _Atomic int n_called, n_done; static int cur_func;
static int served(const char* what) { for (int i = 0; n_done == 0; i++) { CK(i < 300000, "live", what, i, 0); usleep(i < 1000 ? 20 : 100); } n_live++; return 0; }
static void header(int sid, int aid, int flags) { if (live) return; CK((uint8_t)captured[8] == sid, "header", "a message names another service than declared", (uint8_t)captured[8], sid); CK((uint8_t)captured[9] == aid, "header", "a message names another function or event than declared", (uint8_t)captured[9], aid); CK((uint8_t)captured[10] == flags, "header", "a message is of another kind", (uint8_t)captured[10], flags); }
static void deliver(gracht_protocol_t* p, int aid, void* who) {
    if (live) { served(who == (void*)CL ? "an event sent by the generated code does not arrive" : "a request sent by the generated code does not arrive"); return; }
    gracht_protocol_function_t* f = p->functions; for (int i = 0; i < p->num_functions; i++) if (f[i].id == aid) {
        char* copy = malloc(captured_size); memcpy(copy, captured, captured_size); uint32_t size = captured_size; gracht_buffer_t b = { copy, HDR };
        ((void (*)(void*, gracht_buffer_t*))f[i].address)(who, &b); CK(b.index == size, "decode", "reading a message consumes another number of bytes than were written", b.index, size); memset(copy, 0xEE, size); free(copy); return; }
    viol("table", "a declared function or event is not in the protocol table", aid, 0);
}
#define SEND(expr) do { measuring = 1; n_sent = 0; int st_ = (expr); CK(st_ == 0 && n_sent == 1, "encode", live ? "sending fails, or is not done exactly once" : "a message was not handed to the runtime exactly once", n_sent, st_); if (live) break; exact_size = got_size; measuring = 0; CK((expr) == 0, "encode", "failed", 0, 0); } while (0)
/* a server thread and a thread that receives for the client */
#include <sys/socket.h>
#include <sys/un.h>
#include <gracht/link/socket.h>
static struct sockaddr_storage live_addr; static socklen_t live_len; static _Atomic int live_conn = -1, live_conns;
static void live_connected(gracht_conn_t c) { live_conn = (int)c; live_conns++; }
static void live_gone(gracht_conn_t c) { CK((int)c == live_conn, "live", "another client is announced as gone", c, live_conn); live_conns--; }
static void* live_server(void* a) { (void)a; CK(gracht_server_main_loop(SV) == 0, "live", "the server's loop fails", errno, 0); return NULL; }
static void* live_pump(void* a) { (void)a; while (gracht_client_wait_message(CL, NULL, GRACHT_MESSAGE_BLOCK) == 0); return NULL; }
static pthread_t live_st, live_pt;
static void live_link(struct gracht_link_socket** l, int listening) { CK(gracht_link_socket_create(l) == 0, "live", "no link", errno, 0); gracht_link_socket_set_type(*l, gracht_link_stream_based); gracht_link_socket_set_listen(*l, listening); gracht_link_socket_set_domain(*l, AF_LOCAL); gracht_link_socket_set_address(*l, &live_addr, live_len); }
static void live_server_start(int workers) {
    struct sockaddr_un* u = (void*)&live_addr; u->sun_family = AF_LOCAL; snprintf(u->sun_path, sizeof u->sun_path, "live%d", (int)getpid()); unlink(u->sun_path); live_len = sizeof *u;
    gracht_server_configuration_t c; gracht_server_configuration_init(&c); c.callbacks.clientConnected = live_connected; c.callbacks.clientDisconnected = live_gone; gracht_server_configuration_set_num_workers(&c, workers); gracht_server_configuration_set_max_msg_size(&c, 1 << 23);
    SV = NULL; CK(gracht_server_create(&c, &SV) == 0, "live", "no server", errno, 0); struct gracht_link_socket* l; live_link(&l, 1); CK(gracht_server_add_link(SV, (struct gracht_link*)l) == 0, "live", "no server link", errno, 0);
}
static void live_client_start(void) {
    pthread_create(&live_st, 0, live_server, 0); struct gracht_link_socket* l; live_link(&l, 0); gracht_client_configuration_t c; gracht_client_configuration_init(&c); gracht_client_configuration_set_link(&c, (struct gracht_link*)l); gracht_client_configuration_set_max_msg_size(&c, 1 << 23);
    CL = NULL; CK(gracht_client_create(&c, &CL) == 0, "live", "no client", errno, 0);
}
static void live_go(void) { CK(gracht_client_connect(CL) == 0, "live", "no connection", errno, 0); for (int i = 0; live_conns == 0; i++) { CK(i < 300000, "live", "the client is never announced", i, 0); usleep(100); } CONN = live_conn; pthread_create(&live_pt, 0, live_pump, 0); }
static void live_stop(void) { gracht_server_request_shutdown(SV); /* it stops at its next event */ int fd = socket(AF_LOCAL, SOCK_STREAM, 0); (void)!connect(fd, (void*)&live_addr, live_len); pthread_join(live_st, 0); close(fd); pthread_join(live_pt, 0); gracht_client_shutdown(CL); live_conns = 0; unlink(((struct sockaddr_un*)&live_addr)->sun_path); }
'''


class Driver:
    def __init__(self, d):
        self.d = d
        self.o = []
        self.done = set()

    def w(self, s):
        self.o.append(s)

    # types that need gen_/eq_ functions
    def prim(self, t):
        if t.kind == 'prim':
            k = t.name
            if k in self.done:
                return
            self.done.add(k)
            if k in ('float', 'double'):
                self.w('GEN_FLT(%s, %s)' % (self.fn(t), PRIM[k]))
            elif k == 'bool':
                self.w('static uint8_t gen_%s(int d) { (void)d; return (uint8_t)below(2); } static int eq_%s(uint8_t a, uint8_t b) { return a == b; }' % (self.fn(t), self.fn(t)))
            else:
                self.w('GEN_INT(%s, %s)' % (self.fn(t), PRIM[k]))
        elif t.kind == 'def':
            if t.name in self.done:
                return
            self.done.add(t.name)
            self.w('GEN_INT(%s, %s)' % (self.fn(t), t.name))
        elif t.kind == 'enum':
            if t.obj.cname() in self.done:
                return
            self.done.add(t.obj.cname())
            e = t.obj
            names = ['%s_%s' % (e.cname().upper(), v[0]) for v in e.values]
            for nm, v in zip(names, e.values):
                self.w('_Static_assert((long long)%s == %dLL, "NUMBER %s");' % (nm, v[2], nm))
            self.w('static enum %s gen_%s(int d) { (void)d; static const enum %s v[] = { %s }; return v[below(%d)]; } static int eq_%s(enum %s a, enum %s b) { return a == b; }' % (
                e.cname(), self.fn(t), e.cname(), ', '.join(names), len(names), self.fn(t), e.cname(), e.cname()))

    def fn(self, t):
        return {'prim': 'P', 'def': 'D', 'enum': 'E', 'struct': 'S', 'string': ''}[t.kind] + ('string' if t.kind == 'string' else t.obj.cname() if t.obj else t.name)

    def struct(self, s):
        c, tn, f = s.cname(), 'struct ' + s.cname(), 'S' + s.cname()
        for i in s.flat():
            for t in ([i[1]] if i[0] == 'm' else [e[0] for e in i[2]]):
                self.prim(t)
        self.w('static void gen_%s(%s* x, int d); static int eq_%s(const %s* a, const %s* b);' % (f, tn, f, tn, tn))
        prev = None
        for i in s.flat():
            at = '((%s*)0)->' % tn
            name = i[2] if i[0] == 'm' else i[1]
            for t, m in ([(i[1], i[2] + ('[0]' if i[3] else ''))] if i[0] == 'm' else [(e[0], '%s.%s' % (i[1], e[1])) for e in i[2]]):
                if t.kind in ('prim', 'def') and t.name != 'bool':
                    self.w('_Static_assert(sizeof(%s%s) == sizeof(%s) && ((__typeof__(%s%s))-1 < 0) == ((%s)-1 < 0), "TYPE %s");' % (at, m, t.c(), at, m, t.c(), m))
                elif t.kind in ('struct', 'enum'):
                    self.w('_Static_assert(__builtin_types_compatible_p(__typeof__(%s%s), %s), "TYPE %s");' % (at, m, t.c(), m))
            if prev:
                self.w('_Static_assert(__builtin_offsetof(%s, %s) <= __builtin_offsetof(%s, %s), "ORDER %s");' % (tn, prev, tn, name, name))
            prev = name
        g, q = [], []
        g.append('%s_init(x); (void)d;' % c)
        for i in s.flat():
            if i[0] == 'm':
                _, t, n, arr = i
                if not arr:
                    g.append('gen_%s(&x->%s, d + 1);' % (self.fn(t), n) if t.kind == 'struct' else 'x->%s = gen_%s(d);' % (n, self.fn(t)))
                    q.append('if (!eq_%s(%sa->%s, %sb->%s)) return 0;' % (self.fn(t), '&' if t.kind == 'struct' else '', n, '&' if t.kind == 'struct' else '', n))
                elif t.kind == 'struct':
                    # half by hand, half with the generated helpers
                    g.append('{ uint32_t n = cnt_s(d, sizeof *x->%s); if (below(2)) { if (n) { x->%s = malloc(sizeof(%s) * n); x->%s_count = n; for (uint32_t i = 0; i < n; i++) gen_%s(&x->%s[i], d + 1); } } else { '
                             'if (n > 1000) %s_%s_add(x, n); else if (below(2)) { uint32_t k = below(n + 1); if (k) %s_%s_add(x, k); if (n - k) %s_%s_add(x, n - k); } for (uint32_t i = 0; i < n; i++) { %s* e = %s_%s_get(x, i); %s z; %s_init(&z); CK(eq_%s(e, &z), "helper", "a new array element is not empty", i, n); gen_%s(e, d + 1); } CK(x->%s_count == n, "helper", "array length", x->%s_count, n); } if (n > 60000) tiny = 0; }'
                             % (n, n, t.c(), n, self.fn(t), n, c, n, c, n, c, n, t.c(), c, n, t.c(), t.obj.cname(), self.fn(t), self.fn(t), n, n))
                    q.append('if (a->%s_count != b->%s_count) return 0; for (uint32_t i = 0; i < a->%s_count; i++) if (!eq_%s(&a->%s[i], &b->%s[i])) return 0;' % (n, n, n, self.fn(t), n, n))
                else:
                    g.append('{ uint32_t n = cnt(); x->%s_count = n; if (n) { x->%s = malloc(sizeof(%s) * n); for (uint32_t i = 0; i < n; i++) x->%s[i] = gen_%s(d); } }' % (n, n, t.c(), n, self.fn(t)))
                    q.append('if (a->%s_count != b->%s_count) return 0; for (uint32_t i = 0; i < a->%s_count; i++) if (!eq_%s(a->%s[i], b->%s[i])) return 0;' % (n, n, n, self.fn(t), n, n))
            else:
                _, v, ents = i
                U = '%s_%s_' % (c.upper(), v.upper())
                g.append('CK(%sINVALID == 0, "helper", "invalid tag", 0, 0); switch (below(%d)) { default: n_var[0]++; break;' % (U, len(ents) + 1))
                q.append('if (a->%s_type != b->%s_type) return 0; switch (a->%s_type) { default: break;' % (v, v, v))
                for k, (t, n) in enumerate(ents):
                    tag = U + n.upper()
                    st = t.kind == 'struct'
                    g.append('case %d: n_var[1]++; { %s e; %s; if (below(2)) { n_var[2]++; if (below(3) == 0) { %s_%s_set_%s(x, %se); %s_%s_clear(x); CK(x->%s_type == %sINVALID, "helper", "a cleared variant is not empty", x->%s_type, 0); } %s_%s_set_%s(x, %se); %s } else { x->%s.%s = e; x->%s_type = %s; } CK(%s_%s_is_%s(x), "helper", "a variant does not report the entry that was set", x->%s_type, %s);'
                             % (k, t.c(), 'gen_%s(&e, d + 1)' % self.fn(t) if st else 'e = gen_%s(d)' % self.fn(t), c, v, t.name, '&' if st else '', c, v, v, U, v, c, v, t.name, '&' if st else '',
                                '%s_destroy(&e);' % t.obj.cname() if st else 'free(e);' if t.kind == 'string' else '', v, n, v, tag, c, v, t.name, v, tag))
                    for t2, n2 in ents:
                        if t2 is not t:
                            g.append('CK(!%s_%s_is_%s(x), "helper", "a variant reports an entry that was not set", x->%s_type, %s);' % (c, v, t2.name, v, tag))
                    g.append('break; }')
                    q.append('case %s: if (!eq_%s(%sa->%s.%s, %sb->%s.%s)) return 0; break;' % (tag, self.fn(t), '&' if st else '', v, n, '&' if st else '', v, n))
                g.append('}')
                q.append('}')
        self.w('static void gen_%s(%s* x, int d) { %s }' % (f, tn, ' '.join(g)))
        self.w('static int eq_%s(const %s* a, const %s* b) { (void)a; (void)b; %s return 1; }' % (f, tn, tn, ' '.join(q)))
        self.w('static void copy_%s(uint64_t s) { %s* a = malloc(sizeof *a + 1); %s* b = malloc(sizeof *b + 1); %s ref; seed(s); gen_%s(a, 0); seed(s); gen_%s(&ref, 0); memset(b, 0xA5, sizeof *b); %s_copy(a, b); CK(eq_%s(a, b), "copy", "the copy of a structure differs from the original", 0, 0); '
               '%s_destroy(a); memset(a, 0xEE, sizeof *a); free(a); CK(eq_%s(&ref, b), "copy", "a copy does not survive its original", 0, 0); %s_destroy(b); free(b); %s_destroy(&ref); n_copies++; }' % (f, tn, tn, tn, f, f, c, f, c, f, c, c))

    # parameters: declare, generate, free, pass
    def decl(self, ps):
        o = []
        for t, n, a in ps:
            if a:
                o.append('%s* %s = 0; uint32_t %s_count = 0;' % (t.c(), n, n))
            else:
                o.append('%s %s;' % (t.c(), n))
        return ' '.join(o)

    def gen(self, ps):
        o = []
        for t, n, a in ps:
            if a and t.kind == 'struct':
                o.append('%s_count = cnt_s(0, sizeof *%s); if (%s_count < 10) %s_count *= 1 + below(4); if (%s_count) %s = malloc(sizeof(%s) * %s_count); for (uint32_t i = 0; i < %s_count; i++) gen_%s(&%s[i], 1); tiny = 0;' % (n, n, n, n, n, n, t.c(), n, n, self.fn(t), n))
            elif a:
                o.append('%s_count = cnt(); if (%s_count) %s = malloc(sizeof(%s) * %s_count); for (uint32_t i = 0; i < %s_count; i++) %s[i] = gen_%s(0);' % (n, n, n, t.c(), n, n, n, self.fn(t)))
            elif t.kind == 'struct':
                o.append('gen_%s(&%s, 0);' % (self.fn(t), n))
            else:
                o.append('%s = gen_%s(0);' % (n, self.fn(t)))
        return ' '.join(o)

    def free(self, ps):
        o = []
        for t, n, a in ps:
            if a:
                if t.kind == 'struct':
                    o.append('for (uint32_t i = 0; i < %s_count; i++) %s_destroy(&%s[i]);' % (n, t.obj.cname(), n))
                if t.kind == 'string':
                    o.append('for (uint32_t i = 0; i < %s_count; i++) free(%s[i]);' % (n, n))
                o.append('free(%s);' % n)
            elif t.kind == 'struct':
                o.append('%s_destroy(&%s);' % (t.obj.cname(), n))
            elif t.kind == 'string':
                o.append('free(%s);' % n)
        return ' '.join(o)

    def passed(self, ps):
        return ''.join(', ' + (('%s, %s_count' % (n, n)) if a else '&' + n if t.kind == 'struct' else n) for t, n, a in ps)

    def sig(self, ps):
        o = ''
        for t, n, a in ps:
            if a:
                o += ', const %s* got_%s, const uint32_t got_%s_count' % (t.c(), n, n)
            elif t.kind == 'struct':
                o += ', const %s* got_%s' % (t.c(), n)
            else:
                o += ', const %s got_%s' % (t.c(), n)
        return o

    def cmp(self, ps):
        o = []
        for t, n, a in ps:
            if a:
                o.append('CK(got_%s_count == %s_count, "value", "an array arrived with another length: %s", got_%s_count, %s_count);' % (n, n, n, n, n))
                o.append('for (uint32_t i = 0; i < %s_count; i++) CK(eq_%s(%sgot_%s[i], %s%s[i]), "value", "an array element arrived changed: %s", i, %s_count);' % (
                    n, self.fn(t), '&' if t.kind == 'struct' else '', n, '&' if t.kind == 'struct' else '', n, n, n))
            else:
                o.append('CK(eq_%s(got_%s, %s%s), "value", "a value arrived changed: %s", 0, 0);' % (self.fn(t), n, '&' if t.kind == 'struct' else '', n, n))
        return ' '.join(o)

    def result(self, s, f):
        """call the result function with output space of random size and compare"""
        name, req, resp, fid = f
        d, args, chk, fr = [], '', [], []
        for t, n, a in resp:
            if a:
                d.append('uint32_t cap_%s = below(3) ? %s_count + below(3) : below(%s_count + 1); if (cap_%s < %s_count) n_small++; %s* o_%s = malloc(sizeof(%s) * cap_%s); if (cap_%s) memset(o_%s, 0xA5, sizeof(%s) * cap_%s); if (!cap_%s && below(2)) { free(o_%s); o_%s = NULL; }'
                         % (n, n, n, n, n, t.c(), n, t.c(), n, n, n, t.c(), n, n, n, n))
                args += ', o_%s, cap_%s' % (n, n)
                amp = '&' if t.kind == 'struct' else ''
                chk.append('for (uint32_t i = 0; i < cap_%s && i < %s_count; i++) CK(eq_%s(%so_%s[i], %s%s[i]), "value", "an array element of a result differs: %s", i, cap_%s);' % (n, n, self.fn(t), amp, n, amp, n, n, n))
                chk.append('for (size_t i = sizeof(%s) * (size_t)%s_count; o_%s && i < sizeof(%s) * (size_t)cap_%s; i++) CK(((uint8_t*)o_%s)[i] == 0xA5, "untouched", "output space beyond the returned elements was written: %s", i, cap_%s);' % (t.c(), n, n, t.c(), n, n, n, n))
                if t.kind == 'struct':
                    fr.append('for (uint32_t i = 0; i < cap_%s && i < %s_count; i++) %s_destroy(&o_%s[i]);' % (n, n, t.obj.cname(), n))
                if t.kind == 'string':
                    fr.append('for (uint32_t i = 0; i < cap_%s && i < %s_count; i++) free(o_%s[i]);' % (n, n, n))
                fr.append('free(o_%s);' % n)
            elif t.kind == 'string':
                d.append('size_t l_%s = slen(%s); uint32_t cap_%s = below(3) ? (uint32_t)l_%s + 1 + below(3) : below((uint32_t)l_%s + 2); if (cap_%s <= l_%s) n_small++; char* o_%s = malloc(cap_%s); memset(o_%s, 0xA5, cap_%s);' % (n, n, n, n, n, n, n, n, n, n, n))
                args += ', o_%s, cap_%s' % (n, n)
                chk.append('if (cap_%s) { size_t w = cap_%s - 1 < l_%s ? cap_%s - 1 : l_%s; CK((!w || !memcmp(o_%s, %s, w)) && o_%s[w] == 0, "value", "a string result differs: %s", w, cap_%s); for (size_t i = w + 1; i < cap_%s; i++) CK((uint8_t)o_%s[i] == 0xA5, "untouched", "space beyond a string result was written: %s", i, cap_%s); }' % (n, n, n, n, n, n, n, n, n, n, n, n, n, n))
                fr.append('free(o_%s);' % n)
            else:
                d.append('%s* o_%s = malloc(sizeof(%s)); memset(o_%s, 0xA5, sizeof(%s));' % (t.c(), n, t.c(), n, t.c()))
                args += ', o_%s' % n
                if t.kind == 'struct':
                    chk.append('CK(eq_%s(o_%s, &%s), "value", "a result differs: %s", 0, 0);' % (self.fn(t), n, n, n))
                    fr.append('%s_destroy(o_%s);' % (t.obj.cname(), n))
                else:
                    chk.append('CK(eq_%s(*o_%s, %s), "value", "a result differs: %s", 0, 0);' % (self.fn(t), n, n, n))
                fr.append('free(o_%s);' % n)
        return ('%s n_final = 0; status_code = GRACHT_MESSAGE_COMPLETED; CK(%s_%s_result(CL, &ctxobj%s) == 0 && n_final == 1, "decode", "collecting a result fails or does not release it once", n_final, 0); %s %s'
                % (' '.join(d), s.cl(), name, args, ' '.join(chk), ' '.join(fr)))

    def inprog(self, s, f):
        """a result that is not there yet leaves the output alone"""
        name, req, resp, fid = f
        d, args, fr = [], '', []
        for t, n, a in resp:
            d.append('uint8_t* q_%s = malloc(64); memset(q_%s, 0xA5, 64);' % (n, n) if t.kind != 'struct' or a else '%s* q_%s = malloc(sizeof(%s) + 1); memset(q_%s, 0xA5, sizeof(%s) + 1);' % (t.c(), n, t.c(), n, t.c()))
            args += ', (void*)q_%s' % n + (', 1' if a or t.kind == 'string' else '')
            fr.append('CK(((uint8_t*)q_%s)[0] == 0xA5, "untouched", "output of a call that is not complete was written", 0, 0); free(q_%s);' % (n, n))
        return '%s static const int codes[] = { GRACHT_MESSAGE_INPROGRESS, GRACHT_MESSAGE_ERROR, -1 }; status_code = codes[below(3)]; n_final = 0; CK(%s_%s_result(CL, &ctxobj%s) == status_code && n_final == 0, "decode", "a call that is not complete was collected", status_code, n_final); %s' % (' '.join(d), s.cl(), name, args, ' '.join(fr))

    def service(self, s):
        fl = s.sv()
        self.w('_Static_assert(%s_ID == %d, "NUMBER"); _Static_assert(%s_FUNCTION_COUNT == %d, "NUMBER");' % (s.macro(), s.num, s.macro(), len(s.funcs)))
        tests = []
        for f in s.funcs:
            name, req, resp, fid = f
            self.w('_Static_assert(%s_%s_ID == %d, "NUMBER");' % (s.macro(), name.upper(), fid))
            tn = '%s_%s' % (fl, name)
            # handler
            body = 'n_called++; CK(cur_func == %d, "wrong-handler", "another handler ran", %d, cur_func); CK(live || (void*)message == (void*)&msgobj, "handler", "message", 0, 0); %s seed(cur_seed); %s %s %s' % (fid, fid, self.decl(req), self.gen(req), self.cmp(req), self.free(req))
            if resp:
                r2 = [(t, 'r_' + n, a) for t, n, a in resp]
                body += ' { %s seed(cur_seed + 77); %s struct gracht_message* mm = message; if (live && (cur_seed & 2)) { mm = malloc(GRACHT_MESSAGE_DEFERRABLE_SIZE(message)); gracht_server_defer_message(message, mm); } SEND(%s_%s_response(mm%s)); CK(captured_kind == 2 && captured_ctx == (void*)mm, "encode", "a response is not sent as such", captured_kind, 2); header(%d, %d, MESSAGE_FLAG_RESPONSE); if (mm != message) free(mm); %s }' % (
                    self.decl(r2), self.gen(r2), fl, name, self.passed(r2), s.num, fid, self.free(r2))
            self.w('void %s_invocation(struct gracht_message* message%s) { %s n_done = 1; }' % (tn, self.sig(req), body))
            t = 'cur_seed = s; cur_func = %d; n_called = n_done = 0; %s seed(s); %s SEND(%s_%s(CL, &ctxobj%s)); CK(captured_kind == 1 && captured_ctx == (void*)&ctxobj, "encode", "a call is not sent as such", captured_kind, 1); header(%d, %d, %s); %s deliver(&%s_server_protocol, %d, &msgobj); CK(n_called == 1, "handler", "the handler ran several times or never", n_called, 1);' % (
                fid, self.decl(req), self.gen(req), s.cl(), name, self.passed(req), s.num, fid, 'MESSAGE_FLAG_SYNC' if resp else 'MESSAGE_FLAG_ASYNC', self.free(req), fl, fid)
            if resp:
                t += ' if (!live) { %s } if (live) CK(gracht_client_await(CL, &ctxobj, 0) == 0, "live", "waiting for the response fails", errno, 0); { %s seed(s + 77); %s %s %s }' % (self.inprog(s, f), self.decl(resp), self.gen(resp), self.result(s, f), self.free(resp))
            self.w('static void test_%s(uint64_t s) { %s }' % (tn, t))
            tests.append('test_' + tn)
        for name, ps, eid, short in s.events:
            ps = [(t, n if n else 'val', a) for t, n, a in ps]
            tn = '%s_event_%s' % (fl, name)
            self.w('_Static_assert(%s_EVENT_%s_ID == %d, "NUMBER");' % (s.macro(), name.upper(), eid))
            self.w('void %s_invocation(gracht_client_t* client%s) { n_called++; CK(cur_func == %d, "wrong-handler", "another handler ran", %d, cur_func); CK(client == CL, "handler", "client", 0, 0); %s seed(cur_seed); %s %s %s n_done = 1; }' % (
                tn, self.sig(ps), eid, eid, self.decl(ps), self.gen(ps), self.cmp(ps), self.free(ps)))
            self.w('static void test_%s(uint64_t s) { cur_seed = s; cur_func = %d; n_called = n_done = 0; %s seed(s); %s if (s & 1) { SEND(%s_single(SV, CONN%s)); CK(captured_kind == 3 && captured_conn == CONN, "encode", "an event to one client is not sent as such", captured_kind, captured_conn); } else { SEND(%s_all(SV%s)); CK(captured_kind == 4, "encode", "a broadcast is not sent as such", captured_kind, 4); } header(%d, %d, MESSAGE_FLAG_EVENT); %s deliver(&%s_client_protocol, %d, CL); CK(n_called == 1, "handler", "the event callback ran several times or never", n_called, 1); }' % (
                tn, eid, self.decl(ps), self.gen(ps), tn, self.passed(ps), tn, self.passed(ps), s.num, eid, self.free(ps), fl, eid))
            tests.append('test_' + tn)
        # subscription helpers and tables
        b = ''
        for fn, aid in (('subscribe', 0), ('unsubscribe', 1)):
            b += 'if (!live || %d) SEND(%s_%s(CL, &ctxobj)); header(0, %d, MESSAGE_FLAG_ASYNC); CK(live || captured_size == HDR + 1 && (uint8_t)captured[HDR] == %d, "header", "%s names another service", captured_size, (uint8_t)captured[captured_size - 1]); ' % (fn == 'subscribe', s.cl(), fn, aid, s.num, fn)
        if s.funcs:
            b += 'CK(%s_server_protocol.id == %d && %s_server_protocol.num_functions == %d, "table", "server protocol", %s_server_protocol.id, %s_server_protocol.num_functions); ' % (fl, s.num, fl, len(s.funcs), fl, fl)
        if s.events:
            b += 'CK(%s_client_protocol.id == %d && %s_client_protocol.num_functions == %d, "table", "client protocol", %s_client_protocol.id, %s_client_protocol.num_functions); ' % (fl, s.num, fl, len(s.events), fl, fl)
        self.w('static void test_%s(uint64_t s) { (void)s; %s }' % (fl, b))
        tests.append('test_' + fl)
        return tests

    def make(self, selected=None):
        inc = []
        svcs = [s for s in self.d.services if selected is None or s.name in selected]
        for s in svcs:
            inc += ['#include "%s_server.h"' % s.file(), '#include "%s_client.h"' % s.file()]
        self.w(PRE + '\n'.join(inc))
        tests = []
        seen = set()
        visible = self.visible(svcs)
        for s in self.d.structs:
            if s.cname() in visible and s.cname() not in seen:
                seen.add(s.cname())
                self.struct(s)
                tests.append('copy_S' + s.cname())
        for s in svcs:
            for ps in [p for f in s.funcs for p in (f[1], f[2])] + [e[1] for e in s.events]:
                for t, n, a in ps:
                    self.prim(t)
            tests += self.service(s)
        def reg(side):
            return ' '.join('CK(gracht_%s_register_protocol(%s, &%s_%s_protocol) == 0, "live", "a generated protocol is refused", 0, 0);' % (side, 'SV' if side == 'server' else 'CL', s.sv(), side) for s in svcs if (s.funcs if side == 'server' else s.events))
        self.w('int main(int argc, char** argv) { uint64_t base = strtoull(argv[1], 0, 0); int rounds = argc > 2 ? atoi(argv[2]) : 20; big = malloc(BIG); msgobj.server = SV; static void (*const tests[])(uint64_t) = { %s }; static void (*const live_tests[])(uint64_t) = { %s }; enum { NLIVE = sizeof live_tests / sizeof live_tests[0] }; for (int i = 0; i < rounds; i++) for (unsigned k = 0; k < sizeof tests / sizeof tests[0]; k++) tests[k](base * 1000003 + (uint64_t)i * 977 + k); '
               'for (int w = 0; w < 4 && argc > 3; w += 3) { live = 1; live_server_start(w); %s live_client_start(); %s live_go(); for (int i = 0; i < atoi(argv[3]); i++) for (unsigned k = 0; k < NLIVE; k++) { live_tests[k](base * 1000003 + (uint64_t)(i + w) * 977 + k); } live_stop(); live = 0; } free(big); free(captured); '
               'printf("STAT messages %%lld\\nSTAT bytes %%lld\\nSTAT values %%lld\\nSTAT copies %%lld\\nSTAT small_outputs %%lld\\nSTAT variants_empty %%lld\\nSTAT variants_set %%lld\\nSTAT variants_by_setter %%lld\\nSTAT arrays_over_64k %%lld\\nSTAT arrays_over_255 %%lld\\nSTAT over_sockets %%lld\\nDONE\\n", n_msgs, n_bytes, n_vals, n_copies, n_small, n_var[0], n_var[1], n_var[2], n_big, n_mid, n_live); return 0; }' % (', '.join(tests), ', '.join(t for t in tests if not t.startswith('copy_')), reg('server'), reg('client')))
        return '\n'.join(self.o) + '\n'

    def visible(self, svcs):
        """structures known to the selected services (declared before them)"""
        out = set()
        for s in svcs:
            out |= s.known
        return out
