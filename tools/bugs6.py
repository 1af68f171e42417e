# planted bugs about datagram clients
SV = 'runtime/server.c'; LS = 'runtime/link/socket/server.c'
PEERS = r'''#include "demo.h"
static atomic_int seen, told, failed;
static void h(struct gracht_message* m, struct gracht_buffer* b)
{
    uint32_t x = *(uint32_t*)(b->data + b->index);
    if (demo_respond(m, 5, 1, &x, 4)) failed++;
    seen++;
}
static void conn(gracht_conn_t c) { (void)c; told++; }
static gracht_protocol_function_t F[] = { { 1, (void*)h } };
static gracht_protocol_t P = GRACHT_PROTOCOL_INIT(5, "demo", 1, F);
static int peer(int i)
{
    char n[16]; snprintf(n, 16, "p%d", i);
    struct sockaddr_storage me = demo_addr(n), a = demo_addr("d");
    int k = socket(AF_UNIX, SOCK_DGRAM, 0);
    CHECK(!bind(k, (struct sockaddr*)&me, sizeof(struct sockaddr_un)) && !connect(k, (struct sockaddr*)&a, sizeof(struct sockaddr_un)), "no socket");
    struct timeval tv = { 3, 0 }; setsockopt(k, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    return k;
}
'''
bug('broadcast-ends-at-failure', 'C04', 'Subscribers over datagram links that have left without unsubscribing, and others that are still there',
    'A broadcast stops at the first client that can not be reached, so that those behind it never receive the event.',
    [(SV, '''    struct gracht_buffer* message;
    unsigned int          flags;
};
''', '''    struct gracht_buffer* message;
    unsigned int          flags;
    int                   status;
};
'''), (SV, '''    if (client_is_subscribed(entry->client, protocol)) {
        entry->link->ops.server.send_client(entry->client, context->message, context->flags);
    }
''', '''    if (!context->status && client_is_subscribed(entry->client, protocol)) {
        context->status = entry->link->ops.server.send_client(entry->client, context->message, context->flags);
    }
''')],
    demo=PEERS + r'''int main(void)
{
    gracht_server_t* s = demo_server(1, 0, conn, NULL);
    int k[12]; uint8_t d[HDR + 1]; char b[256]; uint32_t x = 7;
    gracht_server_register_protocol(s, &P);
    CHECK(!demo_link(s, "d", gracht_link_packet_based), "no link");
    demo_run(s);
    for (int i = 0; i < 12; i++) {
        k[i] = peer(i); demo_header(d, 1, HDR + 1, 0, 0, MESSAGE_FLAG_ASYNC); d[HDR] = 5;
        CHECK(send(k[i], d, HDR + 1, 0) == HDR + 1 && demo_wait(&told, i + 1, 5000), "client %d is not announced", i);
    }
    for (int i = 0; i < 9; i++) close(k[i]);
    demo_event(s, 0, 1, 5, 9, &x, 4);
    for (int i = 9; i < 12; i++) CHECK(recv(k[i], b, sizeof b, 0) == HDR + 4, "client %d did not receive the event", i);
    return 0;
}
''')
bug('datagram-answer-length', 'C14', 'A handler that looks at whether its answer to a datagram client could be sent',
    'The number of bytes sent is compared with the length of the content instead of the whole message, so that every answer over a datagram link is reported as failed although it has been sent.',
    [(LS, '''    if (bytesWritten != message->index) {
        GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
        if (bytesWritten == -1) {
            GRERROR(GRSTR("link_server: errno %i"), errno);
        }
        return -1;
    }
    return 0;
}

static void socket_link_destroy(''', '''    if (bytesWritten != (long)message->index - GRACHT_MESSAGE_HEADER_SIZE) {
        GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
        if (bytesWritten == -1) {
            GRERROR(GRSTR("link_server: errno %i"), errno);
        }
        return -1;
    }
    return 0;
}

static void socket_link_destroy(''')],
    demo=PEERS + r'''int main(void)
{
    gracht_server_t* s = demo_server(1, 0, conn, NULL);
    uint8_t d[HDR + 4]; char b[256];
    gracht_server_register_protocol(s, &P);
    CHECK(!demo_link(s, "d", gracht_link_packet_based), "no link");
    demo_run(s);
    int k = peer(1); demo_header(d, 1, HDR + 4, 5, 1, MESSAGE_FLAG_SYNC); memset(d + HDR, 1, 4);
    CHECK(send(k, d, HDR + 4, 0) == HDR + 4 && recv(k, b, sizeof b, 0) == HDR + 4, "no answer");
    CHECK(demo_wait(&seen, 1, 3000) && !failed, "the answer that arrived was reported as failed");
    return 0;
}
''')
