# planted bugs in the protocol compiler
L = 'generator/languages/langc.py'; PA = 'generator/parser.py'; SH = 'generator/common/shared.py'
GEN = '''#!/bin/bash
# compiles the definition beside this file with the protocol compiler and judges what comes out, in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
mkdir "$T/o" "$T/i"
export PYTHONDONTWRITEBYTECODE=1 ASAN_OPTIONS=exitcode=66:detect_leaks=0
gen() { (cd "$T" && python3 "$R/generator/parser.py" --service "$D/$1" --out "$T/o" --client --server --lang-c "${@:2}"); }
cc() { clang -std=gnu11 -g -w -fsanitize=address -I"$T/o" -I"$R/include" -I"$R/_build" -D_GNU_SOURCE "$@" -o "$T/demo"; }
run() { timeout 60 "$T/demo"; }
body() {
%s
}
body
rc=$?
find "$T" -mindepth 1 -delete; rmdir "$T"
exit $rc
'''
SIMPLE = GEN % '''    gen a.gr || return 1
    cc "$D/demo.c" || return 1
    run'''


def g(id, prop, needs, what, edits, gr, c=None, sh=SIMPLE):
    files = [(n, t) for n, t in gr.items()]
    if c:
        files.append(('demo.c', c))
    bug(id, prop, needs, what, edits, demo_sh=sh, files=files)


HEAD = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
'''
STORE = '''namespace demo
struct item {
    uint64 id;
    string name;
    uint32[] data;
}
service store (12) {
    func put(item it) : (int code) = 1;
}
'''
g('count-in-struct-8-bit', 'C01',
  'A struct with an array member of more than 255 elements',
  'The count written in front of the elements of an array within a struct is cut to 8 bits, though all elements follow it.',
  [(L, 'outfile.writeln(f"serialize_uint32(buffer, in->{name}_count);")', 'outfile.writeln(f"serialize_uint32(buffer, (uint8_t)in->{name}_count);")')],
  {'a.gr': STORE}, HEAD + r'''
#include "demo_store_service.h"
int main(void) {
    for (int n = 0; n < 1000; n += 37) {
        struct demo_item a, b; demo_item_init(&a); a.id = 77; a.name = strdup("hello"); a.data_count = n; a.data = calloc(n + 1, 4);
        for (int i = 0; i < n; i++) a.data[i] = i * 3;
        gracht_buffer_t w = { .data = malloc(8192), .index = 0 }; serialize_demo_item(&w, &a);
        gracht_buffer_t r = { .data = w.data, .index = 0 }; deserialize_demo_item(&r, &b);
        if (b.id != 77 || strcmp(b.name, "hello") || b.data_count != n || r.index != w.index) { printf("wrong at %d: %u elements\n", n, b.data_count); return 1; }
        for (int i = 0; i < n; i++) if (b.data[i] != i * 3) return 1;
        free(w.data);
    }
    return 0;
}
''')
VAR = '''namespace demo
struct item {
    variant value {
        uint8 a;
        uint16 b;
        uint32 c;
        uint64 d;
        int8 e;
        int16 f;
        int32 g;
        int64 h;
        string s;
    }
    int after;
}
service store (12) {
    func put(item it) : (int code) = 1;
}
'''
g('variant-tag-three-bits', 'C01',
  'A variant with more than seven entries, set to one of the later ones',
  'Only the lowest three bits of the tag of a variant are kept when it is decoded.',
  [(L, 'outfile.writeln(f"out->{name}_type = deserialize_uint8(buffer);")', 'outfile.writeln(f"out->{name}_type = deserialize_uint8(buffer) & 7;")')],
  {'a.gr': VAR}, HEAD + r'''
#include "demo_store_service.h"
int main(void) {
    struct demo_item a, b; demo_item_init(&a); a.after = 4711;
    for (int k = 0; k < 3; k++) {
        if (k == 0) demo_item_value_set_uint16(&a, 999); else if (k == 1) demo_item_value_set_int64(&a, -5); else demo_item_value_set_string(&a, "text");
        gracht_buffer_t w = { .data = calloc(1, 8192), .index = 0 }; serialize_demo_item(&w, &a);
        gracht_buffer_t r = { .data = w.data, .index = 0 }; deserialize_demo_item(&r, &b);
        if (b.after != 4711 || r.index != w.index || b.value_type != a.value_type) { printf("wrong at %d\n", k); return 1; }
        if (k == 0 && b.value.b != 999) return 1;
        if (k == 1 && b.value.h != -5) return 1;
        if (k == 2 && strcmp(b.value.s, "text")) return 1;
    }
    return 0;
}
''')
g('enum-member-16-bit', 'C01',
  'An enumerator above 65535 or below 0 as a member of a struct',
  'A member of an enumerated type is sent with its lowest 16 bits only.',
  [(L, 'serialize_int(buffer, (int)(in->{prefix}{member.get_name()}));', 'serialize_int(buffer, (unsigned short)(in->{prefix}{member.get_name()}));')],
  {'a.gr': '''namespace demo
enum kind { Low = -3, Mid = 300, High = 70000 }
struct item {
    kind k;
    int after;
}
service store (12) {
    func put(item it) : (int code) = 1;
}
'''}, HEAD + r'''
#include "demo_store_service.h"
int main(void) {
    enum demo_kind v[] = { DEMO_KIND_Low, DEMO_KIND_Mid, DEMO_KIND_High };
    for (int k = 0; k < 3; k++) {
        struct demo_item a, b; demo_item_init(&a); a.k = v[k]; a.after = 5;
        gracht_buffer_t w = { .data = calloc(1, 8192), .index = 0 }; serialize_demo_item(&w, &a);
        gracht_buffer_t r = { .data = w.data, .index = 0 }; deserialize_demo_item(&r, &b);
        if (b.k != v[k] || b.after != 5) { printf("wrong at %d\n", k); return 1; }
    }
    return 0;
}
''')
g('copy-shares-text', 'C01',
  'A struct with a string is copied, and the original is destroyed before the copy is used',
  'A copied struct shares its strings with the original instead of having its own.',
  [(L, 'outfile.writeln(f"out->{prefix}{member.get_name()} = strdup(in->{prefix}{member.get_name()});")', 'outfile.writeln(f"out->{prefix}{member.get_name()} = in->{prefix}{member.get_name()};")')],
  {'a.gr': STORE}, HEAD + r'''
#include "demo_store_service.h"
int main(void) {
    struct demo_item a, b; demo_item_init(&a); demo_item_init(&b); a.name = strdup("hello");
    demo_item_copy(&a, &b);
    demo_item_destroy(&a);
    if (strcmp(b.name, "hello")) return 1;
    demo_item_destroy(&b);
    return 0;
}
''')
g('event-for-one-goes-to-all', 'C01',
  'An event is sent to a single client while others are subscribed to the service',
  'The generated function that sends an event to one client sends it to all subscribers.',
  [(L, '"__status = gracht_server_send_event(server, client, &__buffer, 0);\\n"', '"__status = gracht_server_broadcast_event(server, &__buffer, 0);\\n"')],
  {'a.gr': '''namespace demo
service store (12) {
    func put(int it) : (int code) = 1;
    event changed : (int code) = 2;
}
'''}, HEAD + r'''
#include "demo_store_service_server.h"
static char mem[4096]; static int single, all;
int gracht_server_get_buffer(gracht_server_t* s, gracht_buffer_t* b) { b->data = mem; b->index = 0; return 0; }
int gracht_server_send_event(gracht_server_t* s, gracht_conn_t c, gracht_buffer_t* m, unsigned int f) { single++; return 0; }
int gracht_server_broadcast_event(gracht_server_t* s, gracht_buffer_t* m, unsigned int f) { all++; return 0; }
int gracht_server_respond(struct gracht_message* m, gracht_buffer_t* b) { return 0; }
void demo_store_put_invocation(struct gracht_message* m, const int it) { }
int main(void) {
    demo_store_event_changed_single(NULL, 7, 3);
    if (single != 1 || all != 0) { printf("sent to one %d times, to all %d times\n", single, all); return 1; }
    demo_store_event_changed_all(NULL, 3);
    return single == 1 && all == 1 ? 0 : 1;
}
''', GEN % '''    gen a.gr || return 1
    cc "$D/demo.c" "$T/o/demo_store_service_server.c" || return 1
    run''')
g('namespace-lost-by-import', 'C15',
  'An import after the namespace was declared, with declarations behind it',
  'The namespace of the importing file is not taken up again at the end of an import.',
  [(PA, '        self.namespace = self.stored_namespaces.pop()', '        self.stored_namespaces.pop()')],
  {'a.gr': '''namespace demo
import "b"
enum kind { One = 1, Two = 2 }
service store (12) {
    func put(kind k, part p) : (int code) = 1;
}
''', 'b.gr': '''namespace other
struct part {
    int x;
}
'''}, HEAD + r'''
#include "demo_store_service.h"
int main(void) {
    struct other_part p; other_part_init(&p); p.x = DEMO_KIND_Two;
    return p.x == 2 && SERVICE_DEMO_STORE_PUT_ID == 1 ? 0 : 1;
}
''')
g('include-by-part-of-name', 'C15',
  'The services to generate are selected, and the name of another one is part of the name of a selected one',
  'Selecting a service also generates the client files of each service whose name is part of the selected name.',
  [(L, '''            if (len(include_services) == 0) or (svc.get_name() in include_services):
                self.generate_client_header''', '''            if (len(include_services) == 0) or any(svc.get_name() in name for name in include_services):
                self.generate_client_header''')],
  {'a.gr': '''namespace demo
service store (12) {
    func put(int it) : (int code) = 1;
}
service store_admin (13) {
    func drop(int it) : (int code) = 1;
}
'''}, None, GEN % '''    gen a.gr --include store_admin || return 1
    ls "$T/o"
    test -f "$T/o/demo_store_admin_service_client.h" && test -f "$T/o/demo_store_admin_service_server.c" || return 1
    test ! -e "$T/o/demo_store_service_client.h" && test ! -e "$T/o/demo_store_service_client.c"''')
g('events-of-the-service-before', 'C15',
  'Two services in one definition, the first of which has events',
  'A service is given the events of the services before it as well.',
  [(PA, '        self.funcs = []\n        self.events = []\n        return', '        self.funcs = []\n        return')],
  {'a.gr': '''namespace demo
service store (12) {
    func put(int it) : (int code) = 1;
    event changed : (int code) = 7;
}
service other (13) {
    func drop(int it) : (int code) = 7;
}
'''}, HEAD + r'''
#include "demo_other_service_client.h"
int main(void) {
#ifdef SERVICE_DEMO_OTHER_EVENT_CHANGED_ID
    return 1;
#endif
    return SERVICE_DEMO_OTHER_DROP_ID == 7 ? 0 : 1;
}
''')
