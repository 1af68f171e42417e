#include "rt.h"
/* C07/C13: a client that sends valid requests faster than they are handled neither keeps others from being served nor the server from stopping. */
static struct srv S; static atomic_llong n_flood, n_healthy, n_maxwait, n_batches, n_bad; static atomic_int g_stop; static int g_batch, g_dgram, g_bad;
static void h_count(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; inc(&n_flood); }
static gracht_protocol_function_t fl_funcs[] = { { 1, h_count } }; VT_TABLE(fl_funcs, 0)
static gracht_protocol_t fl_protocol = GRACHT_PROTOCOL_INIT(99, "fl", 1, fl_funcs);
static void* flooder(void* a) {
    int dg = (int)(intptr_t)a; uint8_t* b = malloc(65536), one[256]; uint32_t l = raw_msg(one, 0, 99, 1, MESSAGE_FLAG_ASYNC, 1, 0, 0), n = 0; vt_is_bg = 1;
    if (dg && g_bad) { uint32_t x = l + 1; memcpy(one + 4, &x, 4); }   /* every one of them is to be discarded */
    while (n + l <= (uint32_t)g_batch * l && n + l <= 65536) { memcpy(b + n, one, l); n += l; }
    int fd = dg ? raw_dgram(&S) : raw_connect_unix(S.path); if (fd < 0) vt_viol("connect", "a client could not connect (errno %d)", errno);
    /* goes on for longer than anybody may have to wait */
    while (!ld(&g_stop)) { ssize_t w = send(fd, dg ? one : b, dg ? l : n, MSG_NOSIGNAL); if (w < 0) { if (errno == EINTR) continue; break; } if (!dg && w < (ssize_t)n && raw_write(fd, b + w, n - (size_t)w)) break; inc(&n_batches); if (dg && g_bad) { inc(&n_flood); inc(&n_bad); } }
    close(fd); free(b); return 0;
}
#define BOUND 150000
static atomic_llong g_since; static atomic_int g_waiting; static atomic_int g_watch_stop;
/* judged by how much is executed for the flooding client meanwhile, not by time */
static void* judge(void* a) {
    (void)a; vt_is_bg = 1;
    while (!ld(&g_watch_stop)) {
        int w = ld(&g_waiting); long long d = ldl(&n_flood) - ldl(&g_since);
        if (w && ld(&g_waiting) == w && d > BOUND && ldl(&n_flood) - ldl(&g_since) > BOUND) vt_viol(w == 1 ? "starved" : "shutdown-delayed", w == 1 ? "another client's call is still unanswered after the server executed %lld requests of a client that keeps sending" : "the server still runs after it executed %lld requests since its shutdown was requested", d);
        vt_usleep(500);
    }
    return 0;
}
static void wait_begin(int what) { atomic_store(&g_waiting, 0); atomic_store(&g_since, ldl(&n_flood)); atomic_store(&g_waiting, what); }
static void wait_end(void) { long long d = ldl(&n_flood) - ldl(&g_since), m = ldl(&n_maxwait); atomic_store(&g_waiting, 0); if (d > m) atomic_store(&n_maxwait, d); }
void scen_flood(void) {
    S.workers = (int)vt_arg("workers", 0); S.stream = 1; S.selfdriven = (int)vt_arg("self", 0); g_dgram = (int)vt_arg("dgram", 0); S.dgram = g_dgram; S.family = (int)vt_arg("family", 0); g_batch = (int)vt_arg("batch", 1000); int nf = (int)vt_arg("flooders", 2), calls = (int)vt_arg("calls", 20), join = (int)vt_arg("join", 1);
    srv_create(&S); g_bad = vt_arg("bad", 0) && g_dgram && S.family == 2; gracht_server_register_protocol(S.s, &rt_server_protocol); gracht_server_register_protocol(S.s, &fl_protocol); srv_start(&S);
    gracht_client_t* c = cl_connect_unix(S.path, 0, 0); int conn = -1; call_sync(c, A_ECHO, 1, 1, &conn);
    pthread_t th[8], jt; pthread_create(&jt, 0, judge, 0);
    for (int i = 0; i < nf; i++) pthread_create(&th[i], 0, flooder, (void*)(intptr_t)(g_dgram && (i & 1 || nf == 1)));
    while (ldl(&n_flood) < 2000) vt_usleep(500);
    for (int i = 0; i < calls; i++) { wait_begin(1); call_sync(c, A_ECHO, vt_below(100), vt_below(100), &conn); wait_end(); inc(&n_healthy); vt_usleep(vt_below(2000)); }
    if (join) { wait_begin(1); gracht_client_t* d = cl_connect_unix(S.path, 0, 0); int cd = -1; call_sync(d, A_ECHO, 3, 3, &cd); wait_end(); gracht_client_shutdown(d); }
    wait_begin(2); gracht_server_request_shutdown(S.s); srv_poke(&S);
    pthread_join(S.thread, 0); wait_end(); atomic_store(&g_stop, 1);
    for (int i = 0; i < nf; i++) pthread_join(th[i], 0);
    atomic_store(&g_watch_stop, 1); pthread_join(jt, 0); gracht_client_shutdown(c);
    vt_stat("malformed_datagrams", ldl(&n_bad)); vt_stat("flood_requests", ldl(&n_flood)); vt_stat("healthy_calls", ldl(&n_healthy)); vt_stat("longest_wait_in_requests", ldl(&n_maxwait)); vt_stat("batches", ldl(&n_batches));
    vt_sample("flood: %lld requests of flooding clients, %lld calls of others, the longest waited for %lld of them", ldl(&n_flood), ldl(&n_healthy), ldl(&n_maxwait));
}
