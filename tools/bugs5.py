# planted bugs about tables of handlers, departed senders, and receive buffers
SH = 'runtime/shared.c'
bug('functions-assumed-sorted', 'C03', 'A service whose functions are not listed in the order of their ids',
    'The search for the handler of a request ends at the first function with a larger id, so that functions which are listed after such a one are taken for unsupported.',
    [(SH, '''        if (protocol->functions[i].id == action_id) {
            return &protocol->functions[i];
        }
''', '''        if (protocol->functions[i].id == action_id) {
            return &protocol->functions[i];
        }
        if (protocol->functions[i].id > action_id) {
            break; // the functions are listed by id
        }
''')],
    demo=r'''#include "demo.h"
static atomic_int ran[4];
static void h1(struct gracht_message* m, struct gracht_buffer* b) { (void)m; (void)b; ran[1]++; }
static void h2(struct gracht_message* m, struct gracht_buffer* b) { (void)m; (void)b; ran[2]++; }
static void h3(struct gracht_message* m, struct gracht_buffer* b) { (void)m; (void)b; ran[3]++; }
static gracht_protocol_function_t f[] = { { 9, h3 }, { 1, h1 }, { 4, h2 } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(20, "p", 3, f);
int main(void)
{
    gracht_server_t* s = demo_server(1, 0, NULL, NULL);
    CHECK(!gracht_server_register_protocol(s, &p), "register");
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    pthread_t t = demo_run(s);
    gracht_client_t* k = demo_client("s", 0);
    int x = 1;
    CHECK(!demo_send(k, NULL, 20, 1, MESSAGE_FLAG_ASYNC, &x, 4), "send");
    CHECK(!demo_send(k, NULL, 20, 4, MESSAGE_FLAG_ASYNC, &x, 4), "send");
    CHECK(!demo_send(k, NULL, 20, 9, MESSAGE_FLAG_ASYNC, &x, 4), "send");
    for (int i = 1; i <= 3; i++) CHECK(demo_wait(&ran[i], 1, 3000), "handler %d did not run", i);
    (void)t;
    return 0;
}
''')
bug('departed-requests-dropped', 'C03', 'A client sends requests and leaves before a worker has got to them',
    'Requests are dropped if their sender is no longer connected when a worker gets to them.',
    [('runtime/dispatch_generic.c', '''        server_invoke_action(workerContext->server, job);
        server_cleanup_message(workerContext->server, job);
''', '''        if (server_is_connected(workerContext->server, job)) {
            server_invoke_action(workerContext->server, job);
        }
        server_cleanup_message(workerContext->server, job);
'''),
     ('runtime/dispatch_generic.c', '''static int  worker_dowork(void*);
''', '''int server_is_connected(struct gracht_server*, struct gracht_message*);
static int  worker_dowork(void*);
'''),
     ('runtime/server.c', '''static uint64_t client_hash(const void* element)
{''', '''// there is no need to handle what nobody waits for
int server_is_connected(struct gracht_server* server, struct gracht_message* message)
{
    struct client_wrapper* entry;
    int                    connected;

    if (message->index) {
        return 1; // packets
    }
    rwlock_r_lock(&server->clients_lock);
    entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = message->client });
    connected = entry != NULL;
    rwlock_r_unlock(&server->clients_lock);
    return connected;
}

static uint64_t client_hash(const void* element)
{''')],
    demo=r'''#include "demo.h"
static atomic_int ran;
static void h(struct gracht_message* m, struct gracht_buffer* b) { (void)m; (void)b; usleep(2000); ran++; }
static gracht_protocol_function_t f[] = { { 1, h } };
static gracht_protocol_t p = GRACHT_PROTOCOL_INIT(20, "p", 1, f);
int main(void)
{
    gracht_server_t* s = demo_server(2, 0, NULL, NULL);
    CHECK(!gracht_server_register_protocol(s, &p), "register");
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    pthread_t t = demo_run(s);
    gracht_client_t* k = demo_client("s", 0);
    int x = 1, n = 40;
    for (int i = 0; i < n; i++) CHECK(!demo_send(k, NULL, 20, 1, MESSAGE_FLAG_ASYNC, &x, 4), "send");
    gracht_client_shutdown(k);
    CHECK(demo_wait(&ran, n, 5000), "%d of %d requests were executed", ran, n);
    (void)t;
    return 0;
}
''')
bug('maximum-counts-payload-only', 'C08', 'A server sends a message that is larger than the maximum of the client by less than a header, while the memory behind the buffer is in use',
    'A client takes its maximum message size for the size of the payload when it receives, and writes past the end of the receive buffer.',
    [('runtime/client.c', '''    buffer.index = client->max_message_size;
''', '''    buffer.index = client->max_message_size + GRACHT_MESSAGE_HEADER_SIZE;
''')],
    demo=r'''#include "demo.h"
static void rd(int fd, void* d, int n) { for (int g = 0; g < n; ) { int r = read(fd, (char*)d + g, n - g); CHECK(r > 0, "read"); g += r; } }
int main(void)
{
    enum { MAX = 1024 };
    int l = socket(AF_UNIX, SOCK_STREAM, 0), fd;
    struct sockaddr_storage a = demo_addr("s");
    CHECK(!bind(l, (void*)&a, g_addrlen) && !listen(l, 1), "listen");
    gracht_client_t* k = demo_client("s", MAX);
    fd = accept(l, NULL, NULL);
    uint8_t b[MAX + 64]; uint32_t id;
    memset(b, 0x41, sizeof(b));
    struct gracht_message_context c; int x = 0;
    CHECK(!demo_send(k, &c, 20, 1, MESSAGE_FLAG_SYNC, &x, 4), "send");
    rd(fd, b, HDR + 4);
    memcpy(&id, b, 4);
    memset(b, 0x41, sizeof(b));
    demo_header(b, id, MAX + HDR, 20, 1, MESSAGE_FLAG_RESPONSE);
    CHECK(write(fd, b, MAX + HDR) == MAX + HDR, "write");
    CHECK(gracht_client_wait_message(k, &c, GRACHT_MESSAGE_BLOCK) == -1, "a message that is too large was taken");
    return 0;
}
''')
