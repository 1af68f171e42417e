SHIM = r"""// C11 threads by way of pthreads, which is what ThreadSanitizer knows
#pragma once
#include <pthread.h>
#include <stdint.h>
typedef pthread_mutex_t mtx_t; typedef pthread_cond_t cnd_t; typedef pthread_t thrd_t; typedef int (*thrd_start_t)(void*);
enum { mtx_plain, mtx_recursive, mtx_timed }; enum { thrd_success, thrd_busy, thrd_error, thrd_nomem, thrd_timedout };
static inline int mtx_init(mtx_t* m, int t) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); if (t == mtx_recursive) pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); return pthread_mutex_init(m, &a) ? thrd_error : thrd_success; }
#define mtx_destroy(m) pthread_mutex_destroy(m)
#define mtx_lock(m) (pthread_mutex_lock(m) ? thrd_error : thrd_success)
#define mtx_trylock(m) (pthread_mutex_trylock(m) ? thrd_busy : thrd_success)
#define mtx_unlock(m) (pthread_mutex_unlock(m) ? thrd_error : thrd_success)
#define cnd_init(c) (pthread_cond_init(c, 0) ? thrd_error : thrd_success)
#define cnd_destroy(c) pthread_cond_destroy(c)
#define cnd_signal(c) pthread_cond_signal(c)
#define cnd_broadcast(c) pthread_cond_broadcast(c)
#define cnd_wait(c, m) (pthread_cond_wait(c, m) ? thrd_error : thrd_success)
static inline int thrd_create(thrd_t* t, thrd_start_t f, void* a) { return pthread_create(t, 0, (void* (*)(void*))f, a) ? thrd_error : thrd_success; }
static inline int thrd_join(thrd_t t, int* r) { void* v; int e = pthread_join(t, &v); if (r) *r = (int)(intptr_t)v; return e ? thrd_error : thrd_success; }
"""
TSAN_SH = '''#!/bin/bash
# builds demo.c together with the sources of the runtime under ThreadSanitizer and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
clang -std=gnu11 -O1 -g -w -fsanitize=%s -D_GNU_SOURCE -I"$D" -I"$R/include" -I"$R/_build" -I"$R/runtime/link/socket" -I"$R/runtime" -I"$D" \\
    "$D/demo.c" $(ls "$R"/runtime/*.c | grep -v vali) "$R"/runtime/link/socket/*.c -lpthread -o "$T/demo" || { echo "demo does not build"; exit 0; }
cd "$T" || exit 99
TSAN_OPTIONS=exitcode=66 ASAN_OPTIONS=detect_leaks=0:exitcode=66 timeout 200 ./demo
rc=$?
cd /
find "$T" -mindepth 1 -delete; rmdir "$T"
exit $rc
'''

bug('freed-neighbour-loses-header', 'C10',
    'Two neighbouring blocks are released, the later one first',
    'Merging a released block with the free block behind it forgets the bytes of the header of that block, so that the chain of blocks no longer lines up with the memory behind it.',
    [('runtime/arena.c', '''        if (nextHeader && !nextHeader->allocated) {
            header->length += nextHeader->length + HEADER_SIZE;
        }
''', '''        if (nextHeader && !nextHeader->allocated) {
            header->length += nextHeader->length;
        }
''')],
    demo=r'''#include "demo.h"
#include <arena.h>
int main(void)
{
    struct gracht_arena* a;
    void* p, *q, *r;
    CHECK(!gracht_arena_create(8192, &a), "create");
    r = gracht_arena_allocate(a, NULL, 8188);
    CHECK(r, "a new arena can not provide 8188 bytes");
    memset(r, 0xff, 8188);
    gracht_arena_free(a, r, 0);
    p = gracht_arena_allocate(a, NULL, 1000);
    q = gracht_arena_allocate(a, NULL, 1000);
    CHECK(p && q, "allocate");
    gracht_arena_free(a, q, 0);
    gracht_arena_free(a, p, 0);
    for (int i = 0; i < 60; i++) {
        p = gracht_arena_allocate(a, NULL, 1000);
        CHECK(p, "allocate in round %i", i);
        memset(p, 0xff, 1000);
        q = gracht_arena_allocate(a, NULL, 1000);
        CHECK(q, "allocate in round %i", i);
        CHECK((char*)q >= (char*)p + 1000 || (char*)p >= (char*)q + 1000, "blocks overlap");
        gracht_arena_free(a, q, 0);
        gracht_arena_free(a, p, 0);
    }
    r = gracht_arena_allocate(a, NULL, 8188);
    CHECK(r, "an arena without any block can no longer provide 8188 bytes");
    return 0;
}
''')

bug('trimmed-bytes-vanish', 'C10',
    'A block in front of a free one is partially released, again and again',
    'The bytes a block gives back are not added to the free block behind it, which is only moved: the end of the pool is lost bit by bit, and the chain of blocks ends before the pool does.',
    [('runtime/arena.c', '''            nextHeader->length += allocLength;
            move_header(nextHeader, negated);
''', '''            move_header(nextHeader, negated);
''')],
    demo=r'''#include "demo.h"
#include <arena.h>
int main(void)
{
    struct gracht_arena* a;
    void* p[4];
    CHECK(!gracht_arena_create(16384, &a), "create");
    memset(gracht_arena_allocate(a, NULL, 16000), 0xff, 16000);
    gracht_arena_free(a, (char*)0 + 0, 0);
    gracht_arena_destroy(a);
    CHECK(!gracht_arena_create(16384, &a), "create");
    for (int i = 0; i < 50; i++) {
        p[0] = gracht_arena_allocate(a, NULL, 4000);
        CHECK(p[0], "round %i: nothing left", i);
        gracht_arena_free(a, p[0], 3000);
        gracht_arena_free(a, p[0], 0);
    }
    p[0] = gracht_arena_allocate(a, NULL, 16000);
    CHECK(p[0], "an arena without any block can no longer provide 16000 bytes");
    return 0;
}
''')

bug('message-id-16-bit', 'C02',
    'A call that stays outstanding while the same client makes 65536 others',
    'The numbers of calls repeat after 65536 of them, so that a new call takes the place of one that is still waiting for its response.',
    [('runtime/client.c', '''    return client->current_message_id++;
''', '''    return client->current_message_id++ & 0xFFFF;
''')],
    demo=r'''#include "demo.h"
static struct gracht_message* kept;
static void keep(struct gracht_message* m, gracht_buffer_t* b) { kept = malloc(GRACHT_MESSAGE_DEFERRABLE_SIZE(m)); gracht_server_defer_message(m, kept); }
static void echo(struct gracht_message* m, gracht_buffer_t* b) { uint32_t v; memcpy(&v, b->data + b->index, 4); demo_respond(m, 9, 2, &v, 4); }
static void late(struct gracht_message* m, gracht_buffer_t* b) { uint32_t v = 4711; demo_respond(kept, 9, 1, &v, 4); v = 1; demo_respond(m, 9, 3, &v, 4); }
static gracht_protocol_function_t f[] = { { 1, keep }, { 2, echo }, { 3, late } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 3, f);
int main(void)
{
    gracht_server_t* s = demo_server(0, 0, NULL, NULL);
    gracht_client_t* c;
    struct gracht_message_context held, ctx;
    uint32_t v = 0, r;
    alarm(100);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    gracht_server_register_protocol(s, &p);
    demo_run(s);
    c = demo_client("s", 0);
    demo_send(c, &held, 9, 1, MESSAGE_FLAG_SYNC, &v, 4);
    for (uint32_t i = 0; i < 65600; i++) {
        int act = i == 65590 ? 3 : 2;
        demo_send(c, &ctx, 9, act, MESSAGE_FLAG_SYNC, &i, 4);
        CHECK(!gracht_client_wait_message(c, &ctx, GRACHT_MESSAGE_BLOCK), "wait");
        CHECK(demo_result(c, &ctx, &r, 4) == GRACHT_MESSAGE_COMPLETED && r == (act == 3 ? 1 : i), "call %u was answered with %u", i, r);
    }
    CHECK(!gracht_client_wait_message(c, &held, GRACHT_MESSAGE_BLOCK), "the call that was answered late can not be waited for");
    CHECK(demo_result(c, &held, &r, 4) == GRACHT_MESSAGE_COMPLETED && r == 4711, "the call that was answered late received %u", r);
    return 0;
}
''')

bug('error-number-16-bit', 'C06',
    'A client that has made more than 65535 calls, then one that is not supported',
    'The number of the failed call is cut to 16 bits when its failure is received, so that the failure is attributed to no call, or to another one, and the caller waits forever.',
    [('runtime/control.c', '''    uint32_t __messageId;
    int __errorCode;
''', '''    uint16_t __messageId;
    int __errorCode;
''')],
    demo=r'''#include "demo.h"
static atomic_int n;
static void fire(struct gracht_message* m, gracht_buffer_t* b) { atomic_fetch_add(&n, 1); }
static gracht_protocol_function_t f[] = { { 1, fire } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 1, f);
int main(void)
{
    gracht_server_t* s = demo_server(0, 0, NULL, NULL);
    gracht_client_t* c;
    struct gracht_message_context ctx;
    uint32_t r;
    alarm(60);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    gracht_server_register_protocol(s, &p);
    demo_run(s);
    c = demo_client("s", 0);
    for (uint32_t i = 0; i < 70000; i++) CHECK(!demo_send(c, NULL, 9, 1, MESSAGE_FLAG_ASYNC, &i, 4), "send");
    CHECK(!demo_send(c, &ctx, 9, 77, MESSAGE_FLAG_SYNC, "xxxx", 4), "send");
    for (int i = 0; i < 5000 && atomic_load(&n) < 70000; i++) usleep(1000);
    for (int i = 0; gracht_client_wait_message(c, &ctx, 0); i++) { CHECK(i < 3000, "the failure of an unsupported call never arrives"); usleep(1000); }
    CHECK(demo_result(c, &ctx, &r, 4) == GRACHT_MESSAGE_ERROR, "the call did not fail");
    return 0;
}
''')

bug('announced-before-reachable', 'C04',
    'An application that sends an event to a client from its connection callback',
    'A new stream client is announced before it is entered in the table of clients, so that the event sent to it by the connection callback is refused and lost.',
    [('runtime/server.c', '''    memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions));
    
    rwlock_w_lock(&server->clients_lock);
''', '''    memset(&client->subscriptions[0], 0xFF, sizeof(client->subscriptions));

    // invoke the new client callback before any message of it can be handled
    if (server->callbacks.clientConnected) {
        server->callbacks.clientConnected(client->handle);
    }
    
    rwlock_w_lock(&server->clients_lock);
'''), ('runtime/server.c', '''
    // invoke the new client callback at last
    if (server->callbacks.clientConnected) {
        server->callbacks.clientConnected(client->handle);
    }
''', '')],
    demo=r'''#include "demo.h"
static gracht_server_t* s;
static atomic_int got, sent = 99;
static void ev(gracht_client_t* c, gracht_buffer_t* b) { atomic_fetch_add(&got, 1); }
static gracht_protocol_function_t f[] = { { 5, ev } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 1, f);
static void on(gracht_conn_t c) { atomic_store(&sent, demo_event(s, c, 0, 9, 5, "hello", 6)); }
int main(void)
{
    gracht_client_t* c;
    alarm(60);
    s = demo_server(0, 0, on, NULL);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    demo_run(s);
    c = demo_client("s", 0);
    gracht_client_register_protocol(c, &p);
    for (int i = 0; i < 2000 && atomic_load(&sent) == 99; i++) usleep(1000);
    CHECK(atomic_load(&sent) == 0, "the event for a client that was just announced is refused");
    for (int i = 0; i < 2000 && !atomic_load(&got); i++) { gracht_client_wait_message(c, NULL, 0); usleep(1000); }
    CHECK(atomic_load(&got) == 1, "the event for a client that was just announced is lost");
    return 0;
}
''')

bug('departure-announced-under-lock', 'C09',
    'An application that tells the remaining clients about a departure from its disconnect callback',
    'The departure of a client is announced while the table of clients is locked, so that the server hangs if the callback broadcasts or sends an event.',
    [('runtime/server.c', '''    if (server->callbacks.clientDisconnected) {
        server->callbacks.clientDisconnected(client);
    }

    rwlock_w_lock(&server->clients_lock);
    entry = gr_hashtable_remove(''', '''    rwlock_w_lock(&server->clients_lock);
    if (server->callbacks.clientDisconnected) {
        server->callbacks.clientDisconnected(client);
    }
    entry = gr_hashtable_remove(''')],
    demo=r'''#include "demo.h"
static gracht_server_t* s;
static atomic_int got, gone;
static void ev(gracht_client_t* c, gracht_buffer_t* b) { atomic_fetch_add(&got, 1); }
static gracht_protocol_function_t f[] = { { 5, ev } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 1, f);
static atomic_int ons;
static void on(gracht_conn_t c) { atomic_fetch_add(&ons, 1); }
static void off(gracht_conn_t c) { demo_event(s, 0, 1, 9, 5, "left", 5); atomic_fetch_add(&gone, 1); }
int main(void)
{
    gracht_client_t* c, *d;
    alarm(60);
    s = demo_server(0, 0, on, off);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    demo_run(s);
    c = demo_client("s", 0);
    d = demo_client("s", 0);
    CHECK(demo_wait(&ons, 2, 5000), "connects");
    gracht_client_register_protocol(c, &p);
    gracht_client_shutdown(d);
    CHECK(demo_wait(&gone, 1, 5000), "the server hangs when a client leaves");
    for (int i = 0; i < 2000 && !atomic_load(&got); i++) { gracht_client_wait_message(c, NULL, 0); usleep(1000); }
    CHECK(atomic_load(&got) == 1, "the remaining client is not told");
    return 0;
}
''')

bug('one-buffer-released', 'C13',
    'Several threads have sent responses or events at the same time before the server is shut down',
    'Only the last of the buffers for outgoing messages is released when the server is shut down, the others leak.',
    [('runtime/server.c', '''    buffer = stack_pop(&server->bufferStack);
    while (buffer) {
        free(buffer);
        buffer = stack_pop(&server->bufferStack);
    }
''', '''    buffer = stack_pop(&server->bufferStack);
    if (buffer) {
        free(buffer);
    }
''')],
    demo=r'''#include "demo.h"
#include <malloc.h>
static long round_(void)
{
    gracht_server_t* s = demo_server(0, 500000, NULL, NULL);
    gracht_buffer_t b[3];
    for (int i = 0; i < 3; i++) { CHECK(!gracht_server_get_buffer(s, &b[i]), "buffer"); demo_header((uint8_t*)b[i].data, 0, 0, 9, 5, MESSAGE_FLAG_EVENT); b[i].index = HDR; }
    for (int i = 0; i < 3; i++) gracht_server_broadcast_event(s, &b[i], 0);
    gracht_server_request_shutdown(s);
    gracht_server_main_loop(s);
    struct mallinfo2 m = mallinfo2();
    return (long)(m.uordblks + m.hblkhd);
}
int main(void)
{
    long a, b;
    alarm(60);
    round_();
    a = round_();
    for (int i = 0; i < 5; i++) b = round_();
    CHECK(b - a < 400000, "%li bytes are still allocated after five servers have been shut down", b - a);
    return 0;
}
''')

bug('buffer-returned-before-broadcast', 'C04',
    'Two threads that send events while a client is slow to receive',
    'The buffer of a broadcast is given back before the event has been sent, so that another thread fills it with its own event while it is being sent.',
    [('runtime/server.c', '''    rwlock_r_lock(&server->clients_lock);
    gr_hashtable_enumerate(&server->clients, client_enum_broadcast, &context);
    rwlock_r_unlock(&server->clients_lock);

    // return the borrowed buffer to the stack
    stack_push(&server->bufferStack, message->data);
    return 0;
''', '''    // return the borrowed buffer to the stack
    stack_push(&server->bufferStack, message->data);

    rwlock_r_lock(&server->clients_lock);
    gr_hashtable_enumerate(&server->clients, client_enum_broadcast, &context);
    rwlock_r_unlock(&server->clients_lock);
    return 0;
''')],
    demo=r'''#include "demo.h"
#define N 900000
static gracht_server_t* s;
static atomic_int ons, mixed, got;
static void on(gracht_conn_t c) { atomic_fetch_add(&ons, 1); }
static void ev(gracht_client_t* c, gracht_buffer_t* b) { const char* d = b->data + b->index; for (int i = 1; i < N; i++) if (d[i] != d[0]) { atomic_store(&mixed, 1); break; } atomic_fetch_add(&got, 1); }
static gracht_protocol_function_t f[] = { { 5, ev } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 1, f);
static void* sender(void* a)
{
    gracht_buffer_t b;
    CHECK(!gracht_server_get_buffer(s, &b), "no buffer");
    demo_header((uint8_t*)b.data, 0, 0, 9, 5, MESSAGE_FLAG_EVENT);
    memset(b.data + HDR, *(char*)a, N);
    b.index = HDR + N;
    gracht_server_broadcast_event(s, &b, GRACHT_MESSAGE_BLOCK);
    return NULL;
}
int main(void)
{
    gracht_client_t* c;
    pthread_t t[2];
    alarm(60);
    s = demo_server(0, 1000000, on, NULL);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    demo_run(s);
    c = demo_client("s", 1000000);
    gracht_client_register_protocol(c, &p);
    CHECK(demo_wait(&ons, 1, 5000), "connect");
    pthread_create(&t[0], NULL, sender, "a"); usleep(300000);
    pthread_create(&t[1], NULL, sender, "b"); usleep(300000);
    for (int i = 0; i < 10000 && atomic_load(&got) < 2; i++) { gracht_client_wait_message(c, NULL, 0); usleep(1000); }
    CHECK(atomic_load(&got) == 2, "%i events arrived", atomic_load(&got));
    CHECK(!atomic_load(&mixed), "an event arrived that is a mixture of two");
    return 0;
}
''')

bug('partial-message-inherited', 'C07',
    'A client that disconnects in the middle of a message, followed by another client',
    'The record of a new connection is no longer cleared as a whole, and what had been received of an unfinished message by its former owner is taken for the start of the first message of the new client.',
    [('runtime/link/socket/server.c', '''    memset(client, 0, sizeof(struct socket_link_client));

    client->socket = accept(''', '''    memset(&client->base, 0, sizeof(client->base));
    memset(&client->address, 0, sizeof(client->address));

    client->socket = accept(''')],
    demo=r'''#include "demo.h"
#include <malloc.h>
static atomic_int n, gone;
static void off(gracht_conn_t c) { atomic_fetch_add(&gone, 1); }
static void fire(struct gracht_message* m, gracht_buffer_t* b) { if (!memcmp(b->data + b->index, "good", 4)) atomic_fetch_add(&n, 1); }
static gracht_protocol_function_t f[] = { { 1, fire } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 1, f);
static int raw(void) { struct sockaddr_storage a = demo_addr("s"); int fd = socket(AF_UNIX, SOCK_STREAM, 0); CHECK(!connect(fd, (struct sockaddr*)&a, g_addrlen), "connect"); return fd; }
int main(void)
{
    gracht_server_t* s;
    uint8_t b[64];
    mallopt(M_PERTURB, 0x5a);
    alarm(60);
    s = demo_server(0, 0, NULL, off);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    gracht_server_register_protocol(s, &p);
    demo_run(s);
    demo_header(b, 1, HDR + 4, 9, 1, MESSAGE_FLAG_ASYNC);
    memcpy(b + HDR, "good", 4);
    for (int i = 0; i < 20; i++) {
        int fd = raw(), bad = raw();
        write(bad, b, 6); usleep(20000);
        close(bad);
        write(fd, b, HDR + 4);
        CHECK(demo_wait(&n, i * 2 + 1, 3000), "a message was not executed");
        close(fd);
        CHECK(demo_wait(&gone, i * 3 + 2, 3000), "a client that left is not announced");
        fd = raw();
        write(fd, b, HDR + 4);
        CHECK(demo_wait(&n, i * 2 + 2, 3000), "the message of a new client was not executed");
        close(fd);
        CHECK(demo_wait(&gone, i * 3 + 3, 3000), "a client that left is not announced");
    }
    return 0;
}
''')

bug('answer-buffer-of-default-size', 'C17',
    'A configured maximum beyond the default, and a response or event that makes use of it',
    'Buffers for outgoing messages are always made for the default message size, so that larger responses and events are written beyond their end.',
    [('runtime/server.c', '''        data = malloc(server->allocationSize);
''', '''        data = malloc(GRACHT_DEFAULT_MESSAGE_SIZE + 512);
''')],
    demo=r'''#include "demo.h"
static void echo(struct gracht_message* m, gracht_buffer_t* b) { demo_respond(m, 9, 1, b->data + b->index, 6000); }
static gracht_protocol_function_t f[] = { { 1, echo } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 1, f);
int main(void)
{
    gracht_server_t* s;
    gracht_client_t* c;
    struct gracht_message_context ctx;
    static char d[6000], r[6000];
    alarm(60);
    s = demo_server(0, 8192, NULL, NULL);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    gracht_server_register_protocol(s, &p);
    demo_run(s);
    c = demo_client("s", 8192);
    for (int i = 0; i < 6000; i++) d[i] = (char)(i * 7);
    for (int i = 0; i < 20; i++) {
        CHECK(!demo_send(c, &ctx, 9, 1, MESSAGE_FLAG_SYNC, d, 6000), "send");
        CHECK(!gracht_client_wait_message(c, &ctx, GRACHT_MESSAGE_BLOCK), "wait");
        CHECK(demo_result(c, &ctx, r, 6000) == GRACHT_MESSAGE_COMPLETED && !memcmp(d, r, 6000), "another response");
    }
    return 0;
}
''', demo_sh=TSAN_SH % 'address')

bug('supplied-descriptor-closed', 'C18',
    'An application that supplies its own poll descriptor and keeps using it after the server has been shut down',
    'The server closes the poll descriptor it was given when it is shut down.',
    [('runtime/server.c', '''    if (server->set_handle != GRACHT_HANDLE_INVALID && !server->set_handle_provided) {
''', '''    if (server->set_handle != GRACHT_HANDLE_INVALID) {
''')],
    demo=r'''#include "demo.h"
#include <fcntl.h>
#include <sys/epoll.h>
int main(void)
{
    struct gracht_server_configuration c;
    gracht_server_t* s;
    int e = epoll_create1(0);
    gracht_server_configuration_init(&c);
    gracht_server_configuration_set_aio_descriptor(&c, e);
    CHECK(!gracht_server_create(&c, &s), "create");
    gracht_server_request_shutdown(s);
    gracht_server_main_loop(s);
    CHECK(fcntl(e, F_GETFD) != -1, "the descriptor of the application has been closed");
    return 0;
}
''')

bug('writer-waits-once', 'C12',
    'Two writers waiting for the readers to leave, and a reader that arrives when the first of them is done',
    'A writer that was woken up does not check again whether there are readers. One that arrived before the writer got to run is then still reading while the writer changes what it reads.',
    [('include/rwlock.h', '''    while (lock->readers) {
        cnd_wait(&lock->signal, &lock->sync_object);
    }
''', '''    if (lock->readers) {
        cnd_wait(&lock->signal, &lock->sync_object);
    }
''')],
    demo=r'''#include "demo.h"
#include <rwlock.h>
static struct rwlock l;
static atomic_int readers, writers, bad, stop;
static void* reader(void* a) { while (!atomic_load(&stop)) { rwlock_r_lock(&l); atomic_fetch_add(&readers, 1); if (atomic_load(&writers)) atomic_store(&bad, 1); for (volatile int i = 0; i < 300; i++) if (atomic_load(&writers)) atomic_store(&bad, 1); atomic_fetch_sub(&readers, 1); rwlock_r_unlock(&l); usleep(50); } return NULL; }
static void* writer(void* a) { while (!atomic_load(&stop)) { rwlock_w_lock(&l); atomic_fetch_add(&writers, 1); if (atomic_load(&readers) || atomic_load(&writers) != 1) atomic_store(&bad, 1); for (volatile int i = 0; i < 300; i++) if (atomic_load(&readers)) atomic_store(&bad, 1); atomic_fetch_sub(&writers, 1); rwlock_w_unlock(&l); } return NULL; }
int main(void)
{
    pthread_t t[10];
    alarm(100);
    rwlock_init(&l);
    for (int i = 0; i < 5; i++) pthread_create(&t[i], NULL, reader, NULL);
    for (int i = 5; i < 9; i++) pthread_create(&t[i], NULL, writer, NULL);
    for (int i = 0; i < 20000 && !atomic_load(&bad); i++) usleep(1000);
    atomic_store(&stop, 1);
    CHECK(!atomic_load(&bad), "a writer and a reader were inside at the same time");
    _exit(0);
}
''')

bug('protocol-lookup-unlocked', 'C12',
    'Workers that handle requests while services are registered and unregistered by another thread',
    'Requests look up their handler without locking the table of services, while it may be changed or resized.',
    [('runtime/server.c', '''    rwlock_r_lock(&server->protocols_lock);
    function = get_protocol_action(&server->protocols, protocol, action);
    rwlock_r_unlock(&server->protocols_lock);
''', '''    function = get_protocol_action(&server->protocols, protocol, action);
''')],
    demo=r'''#include "demo.h"
static atomic_int n;
static void fire(struct gracht_message* m, gracht_buffer_t* b) { atomic_fetch_add(&n, 1); }
static gracht_protocol_function_t f[] = { { 1, fire } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 1, f), o[40];
int main(void)
{
    gracht_server_t* s;
    gracht_client_t* c;
    alarm(100);
    s = demo_server(4, 0, NULL, NULL);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    gracht_server_register_protocol(s, &p);
    demo_run(s);
    c = demo_client("s", 0);
    for (int i = 0; i < 40; i++) { o[i] = p; o[i].id = (uint8_t)(20 + i); }
    for (int i = 0; i < 400; i++) {
        CHECK(!demo_send(c, NULL, 9, 1, MESSAGE_FLAG_ASYNC, "abcd", 4), "send");
        if (i % 80 < 40) gracht_server_register_protocol(s, &o[i % 40]); else gracht_server_unregister_protocol(s, &o[i % 40]);
    }
    CHECK(demo_wait(&n, 400, 20000), "only %i of 400 requests were executed", atomic_load(&n));
    _exit(0);
}
'''.replace('_exit(0);\n', 'return 0;\n'), demo_sh=TSAN_SH % 'thread', files=[('threads.h', SHIM)])

bug('call-table-unlocked', 'C12',
    'One thread makes calls while another one receives their responses',
    'A new call is entered in the table of outstanding calls without holding its lock, while another thread looks up the call a response belongs to.',
    [('runtime/client.c', '''    gr_hashtable_set(&client->messages, &entry);
    mtx_unlock(&client->messages_lock);
''', '''    mtx_unlock(&client->messages_lock);
    gr_hashtable_set(&client->messages, &entry);
''')],
    demo=r'''#include "demo.h"
static void echo(struct gracht_message* m, gracht_buffer_t* b) { uint32_t v; memcpy(&v, b->data + b->index, 4); demo_respond(m, 9, 1, &v, 4); }
static gracht_protocol_function_t f[] = { { 1, echo } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(9, "p", 1, f);
static gracht_client_t* c;
static void* caller(void* a)
{
    for (uint32_t i = 0; i < 300; i++) {
        struct gracht_message_context ctx;
        uint32_t r;
        CHECK(!demo_send(c, &ctx, 9, 1, MESSAGE_FLAG_SYNC, &i, 4), "send");
        CHECK(!gracht_client_wait_message(c, &ctx, GRACHT_MESSAGE_BLOCK), "wait");
        CHECK(demo_result(c, &ctx, &r, 4) == GRACHT_MESSAGE_COMPLETED && r == i, "another response");
    }
    return NULL;
}
int main(void)
{
    gracht_server_t* s;
    pthread_t t[4];
    alarm(100);
    s = demo_server(0, 0, NULL, NULL);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    gracht_server_register_protocol(s, &p);
    demo_run(s);
    c = demo_client("s", 0);
    for (int i = 0; i < 4; i++) pthread_create(&t[i], NULL, caller, NULL);
    for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
    return 0;
}
''', demo_sh=TSAN_SH % 'thread', files=[('threads.h', SHIM)])

bug('queue-one-short', 'C11',
    'A queue that is filled to its capacity',
    'The queue refuses an item while one place is still free.',
    [('runtime/queue.c', '''    return queue->capacity - (queue->queue_index - queue->dequeue_index);
''', '''    return queue->capacity - (queue->queue_index - queue->dequeue_index) - 1;
''')],
    demo=r'''#include "demo.h"
#include <queue.h>
int main(void)
{
    struct gr_queue q;
    int v[16];
    CHECK(!gr_queue_construct(&q, 16), "construct");
    for (int r = 0; r < 3; r++) {
        for (int i = 0; i < 16; i++) CHECK(!gr_queue_enqueue(&q, &v[i]), "item %i of 16 is refused", i + 1);
        CHECK(gr_queue_enqueue(&q, &v[0]), "an item too much is accepted");
        for (int i = 0; i < 16; i++) CHECK(gr_queue_dequeue(&q) == &v[i], "wrong item");
    }
    return 0;
}
''')
