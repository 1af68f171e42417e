#ifndef VT_CORE_H
#define VT_CORE_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <gracht/client.h>
#include <gracht/server.h>
#include <gracht/link/socket.h>
/* the harness itself is not disturbed, only the library is (ld --wrap) */
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
ssize_t __real_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
#define recv __real_recv
#define send __real_send
#define recvfrom __real_recvfrom
#define sendto __real_sendto
int __real_connect(int, const struct sockaddr*, socklen_t);
int __real_bind(int, const struct sockaddr*, socklen_t);
int __real_listen(int, int);
#define connect(a, b, c) __real_connect(a, b, c)
#define bind(a, b, c) __real_bind(a, b, c)
#define listen(a, b) __real_listen(a, b)

/* ---- randomness, parameters, verdicts ---- */
extern uint64_t vt_seed;
uint64_t vt_rand(void);                       /* thread local stream derived from the seed */
static inline uint32_t vt_below(uint32_t n) { return n ? (uint32_t)(vt_rand() % n) : 0; }
long  vt_arg(const char* name, long dflt);    /* --name value */
void  vt_viol(const char* key, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void  vt_internal(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void  vt_stat(const char* name, long long value);
void  vt_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void  vt_progress(void);
void  vt_trace(uint64_t what);
void  vt_trace_bg(uint64_t what);             /* a step that only serves a background thread */
int   vt_bg(atomic_int* stop);                /* loop condition of a background thread; parks it while nothing else moves */
extern __thread int vt_is_bg;
int   vt_settle(int (*cond)(void*), void* a);
void  vt_pause_watch(int paused);             /* the hang detector is off while paused */
const char* vt_scratch(void);
#define VT_CHECK(cond, key, ...) do { if (!(cond)) vt_viol(key, __VA_ARGS__); } while (0)

/* ---- perturbation ---- */
extern int vt_perturb_level;                  /* 0 off .. 3 heavy */
extern int vt_io_level;                       /* 0 off .. 3: socket faults */
extern atomic_llong vt_n_perturb, vt_n_short_recv, vt_n_short_send, vt_n_sends, vt_n_recvs, vt_n_spurious;
extern atomic_int vt_refuse; extern __thread int vt_refused;   /* datagram clients are told now and then that there is no server */
void vt_perturb(int site);
void vt_msleep(int ms);
void vt_usleep(int us);
int  vt_count_fds(void);
int  vt_count_threads(void);
long long vt_now_us(void);

/* ---- failing acquisitions of the library (shim/inject.h) ---- */
enum { F_MEMORY = 1, F_DESCRIPTOR = 2, F_POLL = 4, F_THREAD = 8, F_SEND = 16, F_NOSEND = 32, F_ADDRESS = 64, F_ALL = 127 };
void vt_fault_nth(int mask, long long n, int burst); /* the n-th acquisition from now on fails, and those right after it up to burst in all */
void vt_fault_prob(int mask, int permille);   /* each fails with this probability */
void vt_fault_off(void);
long long vt_fault_fired(void);
long long vt_fault_seen(void);                /* acquisitions since the last vt_fault_nth */
int  vt_fault(int kind, const char* file, const char* func, const char* what);
void vt_fault_stats(void);

/* ---- tokens and patterns ---- */
static inline uint64_t vt_mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
void     vt_fill(uint8_t* d, uint32_t n, uint64_t token);
int      vt_verify(const uint8_t* d, uint32_t n, uint64_t token);

/* ---- protocol used by the runtime scenarios, coded by hand so that the generator is not involved ---- */
#define HDR 11
extern uint8_t vt_svc, vt_w[256];                                               /* the service of the calls and the ids its actions have on the wire are chosen per run */
#define SVC vt_svc
void vt_table_add(gracht_protocol_function_t* f, int n, uint8_t* service_id);   /* a table of handlers by action: gets the ids of the run, in any order; the service id, if not NULL, becomes SVC */
#define VT_TABLE(f, id) static void __attribute__((constructor)) vt_table_##f(void) { vt_table_add(f, (int)(sizeof f / sizeof f[0]), id); }
enum { A_ECHO = 1, A_DEFER = 2, A_NOTIFY = 3, A_FIRE = 4, A_SILENT = 5, A_NOTIFY2 = 6, A_BIG = 7, A_SUB = 8 };
enum { E_TICK = 20, E_TICK2 = 21 };
struct req { uint64_t token; uint32_t arg; uint32_t n; const uint8_t* data; };
#define REQ_FIXED (8 + 4 + 4)
extern int gracht_client_get_buffer(gracht_client_t*, gracht_buffer_t*);
extern int gracht_client_get_status_buffer(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
extern int gracht_client_status_finalize(gracht_client_t*, struct gracht_buffer*);
extern int gracht_client_invoke(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
extern int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
extern int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
extern int gracht_server_send_event(gracht_server_t*, gracht_conn_t, gracht_buffer_t*, unsigned int);
extern int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int);

void put_hdr(gracht_buffer_t* b, uint8_t sid, uint8_t aid, uint8_t flags);
void put_req(gracht_buffer_t* b, uint64_t token, uint32_t arg, uint32_t n);     /* data pattern of token */
void get_req(gracht_buffer_t* b, struct req* r);
/* same, as raw bytes: returns total length */
uint32_t raw_msg(uint8_t* out, uint32_t id, uint8_t sid, uint8_t aid, uint8_t flags, uint64_t token, uint32_t arg, uint32_t n);
int raw_write(int fd, const void* p, size_t n);          /* all or -1 */
int raw_write_cut(int fd, const void* p, size_t n, int style); /* in random pieces */
int raw_write_pieces(int fd, const void* p, size_t n, int pieces); /* at most so many pieces */
int raw_read(int fd, void* p, size_t n);                 /* exactly n: 1, eof: 0, error -1 */
int raw_read_msg(int fd, uint8_t* out, uint32_t cap, uint32_t* len); /* one framed message */
int raw_connect_unix(const char* path);
int raw_listen_unix(const char* path);

/* ---- client helpers ---- */
int  cl_call(gracht_client_t* c, struct gracht_message_context* ctx, uint8_t sid, uint8_t aid, uint64_t token, uint32_t arg, uint32_t n);
int  cl_async(gracht_client_t* c, uint8_t sid, uint8_t aid, uint64_t token, uint32_t arg, uint32_t n);
/* collects: returns status; on COMPLETED fills token/arg/n, copies nothing but verifies pattern; ok=0 if the data pattern is wrong */
int  cl_result(gracht_client_t* c, struct gracht_message_context* ctx, uint64_t* token, uint32_t* arg, uint32_t* n, int* ok);
int  cl_subscribe(gracht_client_t* c, uint8_t service, int subscribe);
gracht_client_t* cl_connect_unix(const char* path, int max_msg, int recv_size);
gracht_client_t* cl_create_unix(const char* path, int max_msg, int recv_size);
/* ---- server helper ---- */
struct srv {
    gracht_server_t* s;
    int   workers, max_msg, dgram, stream, selfdriven, own_epoll;
    char  path[108];
    int   family;                              /* of the datagram link: 0 IPv4, 1 IPv6, 2 local paths */
    struct sockaddr_storage daddr; socklen_t dlen;
    pthread_t thread;
    atomic_int running, returned, loop_status;
    void (*connected)(gracht_conn_t);
    void (*disconnected)(gracht_conn_t);
    int   epfd;
};
gracht_client_t* cl_connect_dgram(struct srv* s, int max_msg);
int  raw_dgram(struct srv* s);                /* a plain datagram socket connected to the server */
void srv_create(struct srv* s);               /* creates server + links, registers nothing */
void srv_start(struct srv* s);                /* runs it on a thread */
void srv_stop(struct srv* s);                 /* request + poke + join */
void srv_poke(struct srv* s);
void srv_link_stream(struct srv* s, int tcp);  /* adds a link on a fresh address: 0 local, 1 TCP over IPv4, 2 over IPv6 */
void srv_link_dgram(struct srv* s);
int  srv_add_unix(struct srv* s, const char* path);
#endif
