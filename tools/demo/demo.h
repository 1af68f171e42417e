// Support for the demonstrations: a server with one service, clients, all sockets in a scratch directory.
#ifndef DEMO_H
#define DEMO_H
#define _GNU_SOURCE
#include <errno.h>
#include <gracht/client.h>
#include <gracht/server.h>
#include <gracht/link/socket.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

int gracht_client_get_buffer(gracht_client_t*, gracht_buffer_t*);
int gracht_client_get_status_buffer(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
int gracht_client_status_finalize(gracht_client_t*, struct gracht_buffer*);
int gracht_client_invoke(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
int gracht_server_send_event(gracht_server_t*, gracht_conn_t client, gracht_buffer_t*, unsigned int flags);
int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int flags);

#define HDR GRACHT_MESSAGE_HEADER_SIZE
#define FAIL(...) do { printf("FAILED: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

static char g_dir[64];
static struct sockaddr_storage g_addr[8];
static socklen_t g_addrlen = sizeof(struct sockaddr_un);

// "name" must be relative to the scratch directory, which is the current directory
static struct sockaddr_storage demo_addr(const char* name)
{
    struct sockaddr_storage a;
    struct sockaddr_un* u = (struct sockaddr_un*)&a;
    memset(&a, 0, sizeof(a));
    u->sun_family = AF_UNIX;
    snprintf(u->sun_path, sizeof(u->sun_path), "%s", name);
    return a;
}

static int demo_link(gracht_server_t* s, const char* name, enum gracht_link_type type)
{
    struct gracht_link_socket* l;
    struct sockaddr_storage a = demo_addr(name);
    unlink(name);
    if (gracht_link_socket_create(&l)) return -1;
    gracht_link_socket_set_type(l, type);
    gracht_link_socket_set_domain(l, AF_UNIX);
    gracht_link_socket_set_address(l, &a, g_addrlen);
    gracht_link_socket_set_listen(l, 1);
    return gracht_server_add_link(s, (struct gracht_link*)l);
}

static gracht_server_t* demo_server(int workers, int max, void (*on)(gracht_conn_t), void (*off)(gracht_conn_t))
{
    struct gracht_server_configuration c;
    gracht_server_t* s;
    gracht_server_configuration_init(&c);
    if (workers > 1) gracht_server_configuration_set_num_workers(&c, workers);
    if (max) gracht_server_configuration_set_max_msg_size(&c, max);
    c.callbacks.clientConnected = on;
    c.callbacks.clientDisconnected = off;
    CHECK(!gracht_server_create(&c, &s), "server can not be created");
    return s;
}

static void* demo_loop(void* s) { gracht_server_main_loop(s); return NULL; }
static pthread_t demo_run(gracht_server_t* s) { pthread_t t; pthread_create(&t, NULL, demo_loop, s); return t; }

static gracht_client_t* demo_client(const char* name, int max)
{
    struct gracht_client_configuration c;
    struct gracht_link_socket* l;
    struct sockaddr_storage a = demo_addr(name);
    gracht_client_t* k;
    gracht_client_configuration_init(&c);
    gracht_link_socket_create(&l);
    gracht_link_socket_set_type(l, gracht_link_stream_based);
    gracht_link_socket_set_domain(l, AF_UNIX);
    gracht_link_socket_set_address(l, &a, g_addrlen);
    gracht_client_configuration_set_link(&c, (struct gracht_link*)l);
    if (max) gracht_client_configuration_set_max_msg_size(&c, max);
    CHECK(!gracht_client_create(&c, &k), "client can not be created");
    for (int i = 0; gracht_client_connect(k); i++) { CHECK(i < 500, "can not connect"); usleep(10000); }
    return k;
}

static void demo_header(uint8_t* d, uint32_t id, uint32_t len, int svc, int act, int flags)
{
    memcpy(d, &id, 4); memcpy(d + 4, &len, 4); d[8] = (uint8_t)svc; d[9] = (uint8_t)act; d[10] = (uint8_t)flags;
}

static int demo_send(gracht_client_t* k, struct gracht_message_context* ctx, int svc, int act, int flags, const void* d, uint32_t n)
{
    gracht_buffer_t b;
    CHECK(!gracht_client_get_buffer(k, &b), "no buffer");
    demo_header((uint8_t*)b.data, 0, 0, svc, act, flags);
    memcpy(b.data + HDR, d, n);
    b.index = HDR + n;
    return gracht_client_invoke(k, ctx, &b);
}

static int demo_respond(struct gracht_message* m, int svc, int act, const void* d, uint32_t n)
{
    gracht_buffer_t b;
    CHECK(!gracht_server_get_buffer(m->server, &b), "no buffer");
    demo_header((uint8_t*)b.data, 0, 0, svc, act, MESSAGE_FLAG_RESPONSE);
    memcpy(b.data + HDR, d, n);
    b.index = HDR + n;
    return gracht_server_respond(m, &b);
}

static int demo_event(gracht_server_t* s, gracht_conn_t to, int all, int svc, int act, const void* d, uint32_t n)
{
    gracht_buffer_t b;
    CHECK(!gracht_server_get_buffer(s, &b), "no buffer");
    demo_header((uint8_t*)b.data, 0, 0, svc, act, MESSAGE_FLAG_EVENT);
    memcpy(b.data + HDR, d, n);
    b.index = HDR + n;
    return all ? gracht_server_broadcast_event(s, &b, 0) : gracht_server_send_event(s, to, &b, 0);
}

// collects a response of n bytes, returns the status
static int demo_result(gracht_client_t* k, struct gracht_message_context* ctx, void* out, uint32_t n)
{
    gracht_buffer_t b;
    int s = gracht_client_get_status_buffer(k, ctx, &b);
    if (s != GRACHT_MESSAGE_COMPLETED) return s;
    memcpy(out, b.data + b.index, n);
    gracht_client_status_finalize(k, &b);
    return s;
}

static int demo_wait(atomic_int* v, int value, int ms)
{
    while (atomic_load(v) < value && ms-- > 0) usleep(1000);
    return atomic_load(v) >= value;
}
#endif
