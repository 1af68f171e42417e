# planted bugs for C19 and the handling of failures
NOMEM = r'''
// memory runs out for one thread at a chosen point
extern void* __libc_malloc(size_t); extern void* __libc_realloc(void*, size_t); extern void* __libc_calloc(size_t, size_t);
static __thread int fail_in = -1;       // how many allocations succeed, -1 is all
static __thread size_t fail_above;      // only these are counted
static int fails(size_t n) { return fail_in >= 0 && n >= fail_above && fail_in-- <= 0 ? (fail_in = 0, 1) : 0; }
void* malloc(size_t n) { return fails(n) ? (errno = ENOMEM, (void*)0) : __libc_malloc(n); }
void* realloc(void* p, size_t n) { return fails(n) ? (errno = ENOMEM, (void*)0) : __libc_realloc(p, n); }
void* calloc(size_t a, size_t n) { return fails(a * n) ? (errno = ENOMEM, (void*)0) : __libc_calloc(a, n); }
#include <dirent.h>
static int count_fds(void) { DIR* d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
'''
SC = 'runtime/link/socket/server.c'
bug('accept-before-memory', 'C19', 'A client connects while the server has no memory for it',
    'A connection is accepted before the memory for it is there, and is never closed if there is none: the descriptor is lost, and the client waits for an answer forever.',
    [(SC, '''    client = (struct socket_link_client*)malloc(sizeof(struct socket_link_client));
    if (!client) {
        GRERROR(GRSTR("socket_link_accept failed to allocate data for link"));
        errno = (ENOMEM);
        return -1;
    }

    memset(client, 0, sizeof(struct socket_link_client));

    client->socket = accept(link->base.connection, (struct sockaddr*)&client->address, &address_length);
    if (client->socket < 0) {
        GRERROR(GRSTR("socket_link_accept failed to accept client: %i - %i"), client->socket, errno);
        free(client);
        return -1;
    }
''', '''    struct sockaddr_storage    address        = { 0 };
    gracht_conn_t              connection;

    connection = accept(link->base.connection, (struct sockaddr*)&address, &address_length);
    if (connection < 0) {
        GRERROR(GRSTR("socket_link_accept failed to accept client: %i - %i"), connection, errno);
        return -1;
    }

    client = (struct socket_link_client*)malloc(sizeof(struct socket_link_client));
    if (!client) {
        GRERROR(GRSTR("socket_link_accept failed to allocate data for link"));
        errno = (ENOMEM);
        return -1;
    }

    memset(client, 0, sizeof(struct socket_link_client));
    memcpy(&client->address, &address, sizeof(address));
    client->socket = connection;
''')],
    demo=r'''#include "demo.h"
#include <sys/epoll.h>
''' + NOMEM + r'''
int main(void)
{
    gracht_server_t* s = demo_server(1, 0, NULL, NULL);
    struct epoll_event e;
    CHECK(!demo_link(s, "s", gracht_link_stream_based), "link");
    int h = gracht_server_get_aio_handle(s), before = count_fds();
    for (int i = 0; i < 5; i++) {
        struct sockaddr_storage a = demo_addr("s");
        int fd = socket(AF_UNIX, SOCK_STREAM, 0);
        CHECK(!connect(fd, (void*)&a, g_addrlen), "connect");
        CHECK(epoll_wait(h, &e, 1, 2000) == 1, "the connection is not reported");
        fail_in = 0; fail_above = 100;
        gracht_server_handle_event(s, e.data.fd, e.events);
        fail_in = -1;
        close(fd);
        // once there is memory the server takes and drops whatever is still waiting
        for (int j = 0; j < 50 && epoll_wait(h, &e, 1, 20) > 0; j++) gracht_server_handle_event(s, e.data.fd, e.events);
    }
    CHECK(count_fds() == before, "%d descriptors are lost", count_fds() - before);
    return 0;
}
''')
bug('failed-call-stays-outstanding', 'C19', 'A call that can not be transmitted',
    'A call that could not be sent stays registered as outstanding, so that its status is "in progress" forever, waiting for it does not end, and each of them takes memory for good.',
    [('runtime/client.c', '''    if (status) {
        __remove_message(client, context);
    }
''', '''    if (status && errno == ENOMEM) {
        __remove_message(client, context);
    }
''')],
    demo=r'''#include "demo.h"
int main(void)
{
    // datagrams to nobody are refused
    int fd = socket(AF_UNIX, SOCK_DGRAM, 0);
    struct sockaddr_storage a = demo_addr("d");
    struct gracht_client_configuration c; struct gracht_link_socket* l; gracht_client_t* k;
    CHECK(!bind(fd, (void*)&a, g_addrlen), "bind");
    gracht_client_configuration_init(&c); gracht_link_socket_create(&l);
    gracht_link_socket_set_type(l, gracht_link_packet_based); gracht_link_socket_set_domain(l, AF_UNIX); gracht_link_socket_set_address(l, &a, g_addrlen);
    gracht_client_configuration_set_link(&c, (struct gracht_link*)l);
    CHECK(!gracht_client_create(&c, &k) && !gracht_client_connect(k), "client");
    close(fd);
    struct gracht_message_context ctx; gracht_buffer_t b; int x = 1;
    CHECK(demo_send(k, &ctx, 20, 1, MESSAGE_FLAG_SYNC, &x, 4), "sent to nobody");
    CHECK(gracht_client_get_status_buffer(k, &ctx, &b) != GRACHT_MESSAGE_INPROGRESS, "a call that was not sent is in progress");
    return 0;
}
''')
bug('failed-growth-ignored', 'C19', 'A table that has to grow when there is no memory, repeatedly until it is full',
    'A table that can not grow reports that it did, so that it is filled until there is no free slot left, and every lookup of something that is not in it never ends.',
    [('runtime/hashtable.c', '''    resizedStorage = malloc(newCapacity * hashtable->element_size);
    if (!resizedStorage) {
        return -1;
    }
''', '''    resizedStorage = malloc(newCapacity * hashtable->element_size);
    if (!resizedStorage) {
        return 0; // ignore resize, it is tried again for the next element
    }
''')],
    demo=r'''#include "demo.h"
''' + NOMEM + r'''
static void nop(struct gracht_message* m, struct gracht_buffer* b) { (void)m; (void)b; }
static gracht_protocol_function_t f[] = { { 1, nop } };
int main(void)
{
    gracht_server_t* s = demo_server(1, 0, NULL, NULL);
    static gracht_protocol_t p[64];
    int n = 0;
    alarm(20);
    fail_in = 0;
    for (; n < 64; n++) {
        gracht_protocol_t q = GRACHT_PROTOCOL_INIT((uint8_t)(n + 1), "p", 1, f);
        p[n] = q;
        if (gracht_server_register_protocol(s, &p[n])) break;
    }
    fail_in = -1;
    for (; n < 64; n++) {
        gracht_protocol_t q = GRACHT_PROTOCOL_INIT((uint8_t)(n + 1), "p", 1, f);
        p[n] = q;
        CHECK(!gracht_server_register_protocol(s, &p[n]), "service %d can not be registered", n);
    }
    return 0;
}
''')
bug('send-buffer-owned-late', 'C19', 'Creating a client for which there is memory for the send buffer but not for the messages it receives',
    'The send buffer of a client that can not be created is never released.',
    [('runtime/client.c', '''        client->free_send_buffer = 1;
    }
''', '''    }
'''), ('runtime/client.c', '''        GRERROR(GRSTR("gracht_client: failed to create the memory pool"));
        errno = (ENOMEM);
        goto error;
    }
''', '''        GRERROR(GRSTR("gracht_client: failed to create the memory pool"));
        errno = (ENOMEM);
        goto error;
    }
    client->free_send_buffer = config->send_buffer == NULL;
''')],
    demo=r'''#include "demo.h"
#include <malloc.h>
''' + NOMEM + r'''
int main(void)
{
    struct gracht_link_socket* l; gracht_client_t* k; struct gracht_client_configuration c;
    struct sockaddr_storage a = demo_addr("s");
    gracht_link_socket_create(&l); gracht_link_socket_set_type(l, gracht_link_stream_based); gracht_link_socket_set_domain(l, AF_UNIX); gracht_link_socket_set_address(l, &a, g_addrlen);
    gracht_client_configuration_init(&c); gracht_client_configuration_set_link(&c, (struct gracht_link*)l); gracht_client_configuration_set_max_msg_size(&c, 20000);
    size_t used = 0;
    for (int i = 0; i < 40; i++) {
        fail_above = 30000; fail_in = 0;
        int st = gracht_client_create(&c, &k);
        fail_in = -1;
        if (!st) { printf("the arena is obtained in another way\n"); return 0; }
        if (i == 4) used = mallinfo2().uordblks;
    }
    CHECK(mallinfo2().uordblks < used + 100000, "%zu bytes are lost", (size_t)mallinfo2().uordblks - used);
    return 0;
}
''')
bug('link-entered-before-setup', 'C19', 'Adding a link fails, and is tried again',
    'A link is entered into the table of links before it is set up, and stays there when that fails: when adding it is tried again it is listed twice, and is destroyed twice.',
    [('runtime/server.c', '''    connection = link->ops.server.setup(link, server->set_handle);
    if (connection == GRACHT_CONN_INVALID) {
        GRERROR(GRSTR("gracht_server_add_link: provided link failed setup"));
        return -1;
    }

    server->link_table.handles[tableIndex] = connection;
    server->link_table.links[tableIndex]   = link;
''', '''    server->link_table.links[tableIndex] = link;
    connection = link->ops.server.setup(link, server->set_handle);
    if (connection == GRACHT_CONN_INVALID) {
        GRERROR(GRSTR("gracht_server_add_link: provided link failed setup"));
        return -1;
    }

    server->link_table.handles[tableIndex] = connection;
''')],
    demo=r'''#include "demo.h"
#include <signal.h>
#include <sys/stat.h>
static atomic_int calls;
static void on(struct gracht_message* m, struct gracht_buffer* b) { (void)m; (void)b; atomic_fetch_add(&calls, 1); }
int main(void)
{
    gracht_server_t* s = demo_server(1, 0, NULL, NULL);
    struct gracht_link_socket* l;
    struct sockaddr_storage a = demo_addr("later/s");
    gracht_link_socket_create(&l); gracht_link_socket_set_type(l, gracht_link_stream_based); gracht_link_socket_set_domain(l, AF_UNIX); gracht_link_socket_set_address(l, &a, g_addrlen); gracht_link_socket_set_listen(l, 1);
    int n = 0;
    while (n < 100 && gracht_server_add_link(s, (struct gracht_link*)l)) if (++n == 50) mkdir("later", 0700);
    CHECK(n == 50, "the link can not be added after %d attempts", n);
    pthread_t t = demo_run(s);
    gracht_client_t* k = demo_client("later/s", 0);
    gracht_server_request_shutdown(s);
    pthread_join(t, NULL);
    gracht_client_shutdown(k);
    return 0;
}
''')
bug('closed-twice-after-refusal', 'C19', 'A client whose connection was refused is shut down after something else got the number of its descriptor',
    'A client that could not connect keeps the number of the closed descriptor and closes it again when it is shut down, which by then may be a descriptor of something else.',
    [('runtime/link/socket/client.c', '''        close(link->base.connection);
        link->base.connection = GRACHT_CONN_INVALID;
        return status;
''', '''        close(link->base.connection);
        return status;
''')],
    demo=r'''#include "demo.h"
#include <fcntl.h>
int main(void)
{
    struct gracht_link_socket* l; gracht_client_t* k; struct gracht_client_configuration c;
    struct sockaddr_storage a = demo_addr("nobody");
    gracht_link_socket_create(&l); gracht_link_socket_set_type(l, gracht_link_stream_based); gracht_link_socket_set_domain(l, AF_UNIX); gracht_link_socket_set_address(l, &a, g_addrlen);
    gracht_client_configuration_init(&c); gracht_client_configuration_set_link(&c, (struct gracht_link*)l);
    CHECK(!gracht_client_create(&c, &k), "create");
    CHECK(gracht_client_connect(k), "connected to nobody");
    int fd = open("file", O_CREAT | O_RDWR, 0600);
    gracht_client_shutdown(k);
    CHECK(fcntl(fd, F_GETFD) >= 0, "the descriptor of something else was closed");
    return 0;
}
''')
