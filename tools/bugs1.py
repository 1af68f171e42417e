bug('table-bump-keeps-distance', 'C11',
    'An insert of two colliding keys, removal of the first, and a later removal of an element right before the survivor',
    'Removing an entry moves the entries after it without lowering their probe distance, so that a later removal moves an entry in front of its own slot, where it is never found again.',
    [('runtime/hashtable.c', '''        // reduce the probe count and move it one up
        current->probeCount--;
        memcpy(previous, current, hashtable->element_size);
''', '''        // move it one up
        memcpy(previous, current, hashtable->element_size);
''')],
    demo=r'''#include "demo.h"
#include <hashtable.h>
struct item { uint64_t key; int value; };
static uint64_t h(const void* e) { return ((const struct item*)e)->key & 0xFF; }
static int c(const void* a, const void* b) { return ((const struct item*)a)->key == ((const struct item*)b)->key ? 0 : 1; }
int main(void)
{
    gr_hashtable_t t;
    struct item* f;
    gr_hashtable_construct(&t, 0, sizeof(struct item), h, c);
    gr_hashtable_set(&t, &(struct item){ 0x100, 1 });
    gr_hashtable_set(&t, &(struct item){ 0x200, 2 });
    gr_hashtable_set(&t, &(struct item){ 0x00F, 3 });
    gr_hashtable_remove(&t, &(struct item){ 0x100 });
    gr_hashtable_remove(&t, &(struct item){ 0x00F });
    f = gr_hashtable_get(&t, &(struct item){ 0x200 });
    CHECK(f && f->value == 2, "an entry that was never removed is gone");
    return 0;
}
''')

bug('table-grows-once', 'C11',
    'More entries than fit after the first growth',
    'The threshold for growing is not carried over when the table is resized, so that it grows only once, fills up completely and lookups of missing keys never end.',
    [('runtime/hashtable.c', '''    hashtable->capacity      = temporaryTable.capacity;
    hashtable->grow_count    = temporaryTable.grow_count;
    hashtable->shrink_count  = temporaryTable.shrink_count;
''', '''    hashtable->capacity      = temporaryTable.capacity;
    hashtable->shrink_count  = temporaryTable.shrink_count;
''')],
    demo=r'''#include "demo.h"
#include <hashtable.h>
struct item { uint64_t key; int value; };
static uint64_t h(const void* e) { return ((const struct item*)e)->key; }
static int c(const void* a, const void* b) { return ((const struct item*)a)->key == ((const struct item*)b)->key ? 0 : 1; }
int main(void)
{
    gr_hashtable_t t;
    alarm(20);
    gr_hashtable_construct(&t, 0, sizeof(struct item), h, c);
    for (int i = 0; i < 500; i++) gr_hashtable_set(&t, &(struct item){ (uint64_t)i, i });
    for (int i = 0; i < 500; i++) {
        struct item* f = gr_hashtable_get(&t, &(struct item){ (uint64_t)i });
        CHECK(f && f->value == i, "entry %i is gone", i);
    }
    CHECK(!gr_hashtable_get(&t, &(struct item){ 1000 }), "found what is not there");
    return 0;
}
''')

bug('call-registered-after-send', 'C02',
    'Another thread pumps the connection and receives the response before the sending thread gets to run again',
    'A call is entered in the table of outstanding calls only after its request has been sent. A response that is received in between finds no call and is dropped.',
    [('runtime/client.c', '''    // require intermediate buffer for sync operations
    if (MESSAGE_FLAG_TYPE(GB_MSG_FLG_0(message)) == MESSAGE_FLAG_SYNC) {
        status = __add_message(client, context);
        if (status) {
            goto release;
        }
    }

    status = client->link->ops.client.send(client->link, message, context);
    if (status) {
        __remove_message(client, context);
    }

release:
''', '''    if (MESSAGE_FLAG_TYPE(GB_MSG_FLG_0(message)) == MESSAGE_FLAG_SYNC && !context) {
        errno = EINVAL;
        status = -1;
        goto release;
    }

    status = client->link->ops.client.send(client->link, message, context);

    // require intermediate buffer for sync operations that are on their way
    if (!status && MESSAGE_FLAG_TYPE(GB_MSG_FLG_0(message)) == MESSAGE_FLAG_SYNC) {
        status = __add_message(client, context);
    }

release:
''')],
    demo=r'''#include "demo.h"
#include <sys/syscall.h>
// the sending thread is not scheduled for a while after its request was sent
static __thread int g_slow;
ssize_t send(int s, const void* d, size_t n, int f)
{
    ssize_t r = syscall(SYS_sendto, s, d, n, f, NULL, 0);
    if (g_slow) usleep(50000);
    return r;
}
static void echo(struct gracht_message* m, gracht_buffer_t* b) { demo_respond(m, 5, 1, b->data + b->index, 4); }
static gracht_protocol_function_t F[] = { { 1, (void*)echo } };
static gracht_protocol_t P = GRACHT_PROTOCOL_INIT(5, "demo", 1, F);
static gracht_client_t* k;
static void* pump(void* a) { (void)a; while (!gracht_client_wait_message(k, NULL, GRACHT_MESSAGE_BLOCK)); return NULL; }
int main(void)
{
    pthread_t t;
    gracht_server_t* s = demo_server(0, 0, NULL, NULL);
    gracht_server_register_protocol(s, &P);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "no link");
    demo_run(s);
    k = demo_client("s", 0);
    pthread_create(&t, NULL, pump, NULL);
    g_slow = 1;
    alarm(30);
    for (uint32_t i = 0; i < 20; i++) {
        struct gracht_message_context c;
        uint32_t out = 0;
        CHECK(!demo_send(k, &c, 5, 1, MESSAGE_FLAG_SYNC, &i, 4), "not sent");
        CHECK(!gracht_client_await(k, &c, GRACHT_AWAIT_ASYNC), "await failed");
        CHECK(demo_result(k, &c, &out, 4) == GRACHT_MESSAGE_COMPLETED && out == i, "wrong result");
    }
    return 0;
}
''')

bug('datagram-tail-released', 'C14',
    'A datagram link on a server with workers, and further messages received while the request waits for its worker',
    'The space a received message does not need is given back without accounting for the address that precedes a datagram, so that the end of the message is given back too and is overwritten.',
    [('runtime/server.c', '''        uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
''', '''        uint32_t metaDatalength = sizeof(struct gracht_message);
''')],
    demo=r'''#include "demo.h"
static atomic_int g_seen, g_bad;
static void got(struct gracht_message* m, gracht_buffer_t* b)
{
    (void)m;
    for (int i = 0; i < 400; i++) if (b->data[b->index + i] != (char)(i * 7)) { g_bad++; break; }
    g_seen++;
}
static gracht_protocol_function_t F[] = { { 1, (void*)got } };
static gracht_protocol_t P = GRACHT_PROTOCOL_INIT(5, "demo", 1, F);
int main(void)
{
    gracht_server_t* s = demo_server(4, 1024, NULL, NULL);
    struct sockaddr_storage a = demo_addr("d"), me = demo_addr("me");
    uint8_t d[HDR + 400];
    int k;
    gracht_server_register_protocol(s, &P);
    CHECK(!demo_link(s, "d", gracht_link_packet_based), "no link");
    demo_run(s);
    k = socket(AF_UNIX, SOCK_DGRAM, 0);
    bind(k, (struct sockaddr*)&me, sizeof(struct sockaddr_un));
    demo_header(d, 1, sizeof(d), 5, 1, MESSAGE_FLAG_ASYNC);
    for (int i = 0; i < 400; i++) d[HDR + i] = (uint8_t)(i * 7);
    for (int i = 0; i < 200; i++) sendto(k, d, sizeof(d), 0, (struct sockaddr*)&a, sizeof(struct sockaddr_un));
    CHECK(demo_wait(&g_seen, 200, 10000), "requests lost");
    CHECK(!g_bad, "%i requests with altered content", g_bad);
    return 0;
}
''')

bug('datagram-address-truncated', 'C14',
    'A datagram client whose address is longer than the generic socket address subscribes to events',
    'Only the generic part of the address of a subscribing datagram client is remembered, so that its events go nowhere when the address is longer.',
    [('runtime/link/socket/server.c', '''    memcpy(&client->address, address, (size_t)link->address_length);
''', '''    memcpy(&client->address, address, sizeof(struct sockaddr));
''')],
    demo=r'''#include "demo.h"
static atomic_int g_on;
static void on(gracht_conn_t c) { (void)c; g_on++; }
int main(void)
{
    gracht_server_t* s = demo_server(0, 0, on, NULL);
    struct sockaddr_storage a = demo_addr("d"), me = demo_addr("a_client_with_a_long_name_of_its_own");
    struct timeval tv = { 5, 0 };
    uint8_t d[64], svc = 5;
    int k, v = 77;
    CHECK(!demo_link(s, "d", gracht_link_packet_based), "no link");
    demo_run(s);
    k = socket(AF_UNIX, SOCK_DGRAM, 0);
    setsockopt(k, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
    bind(k, (struct sockaddr*)&me, sizeof(struct sockaddr_un));
    demo_header(d, 1, HDR + 1, 0, 0, MESSAGE_FLAG_ASYNC);
    d[HDR] = svc;
    sendto(k, d, HDR + 1, 0, (struct sockaddr*)&a, sizeof(struct sockaddr_un));
    CHECK(demo_wait(&g_on, 1, 5000), "not subscribed");
    usleep(50000);
    demo_event(s, 0, 1, 5, 20, &v, 4);
    CHECK(recv(k, d, sizeof(d), 0) == HDR + 4, "the event did not arrive");
    return 0;
}
''')

bug('failed-call-not-executed', 'C05',
    'Awaiting a call that the server does not support',
    'Only completed calls count as executed, so that awaiting a call which the server refused never returns, although the refusal has arrived.',
    [('runtime/client.c', '''#define MESSAGE_STATUS_EXECUTED(status) (status == GRACHT_MESSAGE_ERROR || status == GRACHT_MESSAGE_COMPLETED)
''', '''#define MESSAGE_STATUS_EXECUTED(status) (status >= GRACHT_MESSAGE_COMPLETED)
''')],
    demo=r'''#include "demo.h"
int main(void)
{
    gracht_server_t* s = demo_server(0, 0, NULL, NULL);
    struct gracht_message_context c;
    gracht_client_t* k;
    int v = 1;
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "no link");
    demo_run(s);
    k = demo_client("s", 0);
    CHECK(!demo_send(k, &c, 5, 1, MESSAGE_FLAG_SYNC, &v, 4), "not sent");
    alarm(10); // fails by the signal
    CHECK(!gracht_client_await(k, &c, GRACHT_AWAIT_ALL), "await failed");
    CHECK(demo_result(k, &c, &v, 4) == GRACHT_MESSAGE_ERROR, "not an error");
    return 0;
}
''')

bug('unsubscribe-all-drops-stream', 'C04',
    'A stream client that unsubscribes from everything at once',
    'A stream client that unsubscribes from all services is treated like a datagram client: it is announced as disconnected and its connection is closed.',
    [('runtime/server.c', '''    if (protocol == 0xFF) {
        if (!(entry->client->flags & GRACHT_CLIENT_FLAG_STREAM)) {
            entry->client->flags |= GRACHT_CLIENT_FLAG_CLEANUP; // this flag is not needed
            cleanup = 1;
        }
    }
''', '''    if (protocol == 0xFF) {
        entry->client->flags |= GRACHT_CLIENT_FLAG_CLEANUP; // this flag is not needed
        cleanup = 1;
    }
''')],
    demo=r'''#include "demo.h"
static atomic_int g_ran;
static void run(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; g_ran++; }
static gracht_protocol_function_t F[] = { { 1, (void*)run } };
static gracht_protocol_t P = GRACHT_PROTOCOL_INIT(5, "demo", 1, F);
int main(void)
{
    gracht_server_t* s = demo_server(0, 0, NULL, NULL);
    gracht_client_t* k;
    uint8_t all = 0xFF;
    int v = 1;
    gracht_server_register_protocol(s, &P);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "no link");
    demo_run(s);
    k = demo_client("s", 0);
    CHECK(!demo_send(k, NULL, 0, 1, MESSAGE_FLAG_ASYNC, &all, 1), "not sent");
    usleep(200000);
    demo_send(k, NULL, 5, 1, MESSAGE_FLAG_ASYNC, &v, 4);
    CHECK(demo_wait(&g_ran, 1, 5000), "the request was not executed");
    return 0;
}
''')

bug('links-off-by-one', 'C18',
    'Adding one link more than supported',
    'The limit for links is checked against the wrong bound, and the link in excess is stored behind the table, over the first link.',
    [('runtime/server.c', '''    if (tableIndex >= GRACHT_SERVER_MAX_LINKS) {
''', '''    if (tableIndex > GRACHT_SERVER_MAX_LINKS) {
''')],
    demo=r'''#include "demo.h"
int main(void)
{
    gracht_server_t* s = demo_server(0, 0, NULL, NULL);
    char n[2] = "a";
    for (int i = 0; i < 4; i++, n[0]++) CHECK(!demo_link(s, n, gracht_link_stream_based), "link refused");
    CHECK(demo_link(s, n, gracht_link_stream_based), "a fifth link was accepted");
    return 0;
}
''')

bug('message-space-trimmed', 'C14',
    'A datagram of almost the maximum size',
    'The space for a received message has no room for the address of a datagram besides a message of the maximum size, so that the largest datagrams are discarded.',
    [('runtime/server.c', '''    // configure the allocation size, we use the max message size and add
    // 512 bytes for context data
    server->allocationSize = configuration->max_message_size + 512;
''', '''    // configure the allocation size, we use the max message size and add
    // the size of the context
    server->allocationSize = configuration->max_message_size + sizeof(struct gracht_message);
''')],
    demo=r'''#include "demo.h"
static atomic_int g_ran;
static void run(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; g_ran++; }
static gracht_protocol_function_t F[] = { { 1, (void*)run } };
static gracht_protocol_t P = GRACHT_PROTOCOL_INIT(5, "demo", 1, F);
int main(void)
{
    gracht_server_t* s = demo_server(0, 1024, NULL, NULL);
    struct sockaddr_storage a = demo_addr("d"), me = demo_addr("me");
    static uint8_t d[1024];
    int k;
    gracht_server_register_protocol(s, &P);
    CHECK(!demo_link(s, "d", gracht_link_packet_based), "no link");
    demo_run(s);
    k = socket(AF_UNIX, SOCK_DGRAM, 0);
    bind(k, (struct sockaddr*)&me, sizeof(struct sockaddr_un));
    demo_header(d, 1, sizeof(d), 5, 1, MESSAGE_FLAG_ASYNC);
    sendto(k, d, sizeof(d), 0, (struct sockaddr*)&a, sizeof(struct sockaddr_un));
    CHECK(demo_wait(&g_ran, 1, 3000), "the request was not executed");
    return 0;
}
''')

bug('regrow-copies-too-little', 'C10',
    'Growing a block by less than it already holds, when the block behind it is in use',
    'When a block must be moved to grow, only as many bytes as it grows by are taken along.',
    [('runtime/arena.c', '''                memcpy(relocated, &header->payload[0], header->length);
''', '''                memcpy(relocated, &header->payload[0], correctedSize);
''')],
    demo=r'''#include "demo.h"
#include <arena.h>
int main(void)
{
    struct gracht_arena* a;
    unsigned char *x, *y, *z;
    gracht_arena_create(8192, &a);
    x = gracht_arena_allocate(a, NULL, 1000);
    y = gracht_arena_allocate(a, NULL, 1000);
    for (int i = 0; i < 1000; i++) { x[i] = (unsigned char)(i * 3); y[i] = 9; }
    z = gracht_arena_allocate(a, x, 500);
    CHECK(z, "can not grow");
    for (int i = 0; i < 1000; i++) CHECK(z[i] == (unsigned char)(i * 3), "byte %i has changed", i);
    return 0;
}
''')

bug('handlers-outlive-clients', 'C13',
    'A handler that is still running on a worker and answers its client while the server shuts down',
    'The clients are released before the workers have finished, so that a handler which is still running answers a client that does not exist any more.',
    [('runtime/server.c', '''    // destroy all our workers
    if (server->worker_pool) {
        gracht_worker_pool_destroy(server->worker_pool);
    }

    // start out by destroying all our clients
    rwlock_w_lock(&server->clients_lock);
    gr_hashtable_enumerate(&server->clients, client_enum_destroy, server);
    rwlock_w_unlock(&server->clients_lock);
''', '''    // start out by destroying all our clients
    rwlock_w_lock(&server->clients_lock);
    gr_hashtable_enumerate(&server->clients, client_enum_destroy, server);
    rwlock_w_unlock(&server->clients_lock);

    // destroy all our workers
    if (server->worker_pool) {
        gracht_worker_pool_destroy(server->worker_pool);
    }
''')],
    demo=r'''#include "demo.h"
static atomic_int g_started;
static atomic_int g_status = -99;
static void slow(struct gracht_message* m, gracht_buffer_t* b)
{
    int v;
    memcpy(&v, b->data + b->index, 4);
    g_started++;
    usleep(500000);
    g_status = demo_respond(m, 5, 1, &v, 4);
}
static gracht_protocol_function_t F[] = { { 1, (void*)slow } };
static gracht_protocol_t P = GRACHT_PROTOCOL_INIT(5, "demo", 1, F);
int main(void)
{
    gracht_server_t* s = demo_server(2, 0, NULL, NULL);
    struct gracht_message_context c;
    gracht_client_t *k, *k2;
    pthread_t t;
    int v = 1234, out = 0;
    gracht_server_register_protocol(s, &P);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "no link");
    t = demo_run(s);
    k = demo_client("s", 0);
    CHECK(!demo_send(k, &c, 5, 1, MESSAGE_FLAG_SYNC, &v, 4), "not sent");
    CHECK(demo_wait(&g_started, 1, 5000), "not started");
    gracht_server_request_shutdown(s);
    k2 = demo_client("s", 0); // an event, for the server to notice
    (void)k2;
    alarm(20);
    pthread_join(t, NULL);
    // the handler ran before the server was gone, its answer must have been sent
    CHECK(!g_status, "the handler could not answer");
    CHECK(!gracht_client_await(k, &c, GRACHT_AWAIT_ALL), "await failed");
    CHECK(demo_result(k, &c, &out, 4) == GRACHT_MESSAGE_COMPLETED && out == v, "no answer");
    return 0;
}
''')

bug('buffer-kept-on-failed-event', 'C16',
    'Events sent to clients whose connection fails, again and again',
    'A send buffer is given back only when the event could be sent, so that every event that can not be sent costs a buffer.',
    [('runtime/server.c', '''    // When sending target specific events - we do not care about subscriptions
    status = clientEntry->link->ops.server.send_client(clientEntry->client, message, flags);
    rwlock_r_unlock(&server->clients_lock);

    // return the borrowed buffer to the stack
    stack_push(&server->bufferStack, message->data);
    return status;
''', '''    // When sending target specific events - we do not care about subscriptions
    status = clientEntry->link->ops.server.send_client(clientEntry->client, message, flags);
    rwlock_r_unlock(&server->clients_lock);
    if (status) {
        return status;
    }

    // return the borrowed buffer to the stack
    stack_push(&server->bufferStack, message->data);
    return 0;
''')],
    demo=r'''#include "demo.h"
#include <malloc.h>
static atomic_int g_handle;
static void on(gracht_conn_t c) { g_handle = c; }
int main(void)
{
    gracht_server_t* s = demo_server(0, 8192, on, NULL);
    gracht_client_t* k;
    size_t before;
    int v = 1;
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "no link");
    demo_run(s);
    k = demo_client("s", 0);
    CHECK(demo_wait(&g_handle, 1, 5000), "not connected");
    // the client never reads, until its socket takes no more
    for (int i = 0; i < 100000; i++) demo_event(s, g_handle, 0, 5, 20, &v, 4);
    before = mallinfo2().uordblks;
    for (int i = 0; i < 2000; i++) demo_event(s, g_handle, 0, 5, 20, &v, 4);
    CHECK(mallinfo2().uordblks < before + 1000000, "memory has grown from %zu to %zu", before, mallinfo2().uordblks);
    (void)k;
    return 0;
}
''')

bug('action-past-the-end', 'C06',
    'A request for a function that is not registered, but happens to follow the registered ones in memory',
    'The search for a function looks at one entry more than the service has.',
    [('runtime/shared.c', '''    for (i = 0; i < protocol->num_functions; i++) {
''', '''    for (i = 0; i <= protocol->num_functions; i++) {
''')],
    demo=r'''#include "demo.h"
static atomic_int g_ran, g_other;
static void run(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; g_ran++; }
static void other(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; g_other++; }
static gracht_protocol_function_t F[] = { { 1, (void*)run }, { 2, (void*)other } };
static gracht_protocol_t P = GRACHT_PROTOCOL_INIT(5, "demo", 1, F); // has only the first
int main(void)
{
    gracht_server_t* s = demo_server(0, 0, NULL, NULL);
    gracht_client_t* k;
    int v = 1;
    gracht_server_register_protocol(s, &P);
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "no link");
    demo_run(s);
    k = demo_client("s", 0);
    demo_send(k, NULL, 5, 2, MESSAGE_FLAG_ASYNC, &v, 4);
    demo_send(k, NULL, 5, 1, MESSAGE_FLAG_ASYNC, &v, 4);
    CHECK(demo_wait(&g_ran, 1, 5000), "the request was not executed");
    CHECK(!g_other, "a function that is not registered was executed");
    return 0;
}
''')
