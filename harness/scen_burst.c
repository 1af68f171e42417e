#include "rt.h"
/* C03: every request that was sent runs its handler exactly once, intact, in order without a pool. */
static struct srv S; static int g_ordered; static uint32_t g_maxn;
struct bc { int no, leave, n, rounds; int conn; };
static _Atomic uint32_t g_lastseq[64]; static atomic_llong n_sent, n_left, n_clients, n_order; static _Atomic uint64_t g_seqof[MAXTOK];
static void on_handler(struct gracht_message* m, int action, struct req* r) {
    (void)m; if (action != A_NOTIFY && action != A_NOTIFY2) return;
    uint64_t q = atomic_load_explicit(&g_seqof[tk_idx(r->token)], memory_order_relaxed); if (!q) return;
    uint32_t who = (uint32_t)(q >> 32), seq = (uint32_t)q;
    uint32_t last = atomic_exchange_explicit(&g_lastseq[who], seq, memory_order_relaxed);
    if (g_ordered) { inc(&n_order); VT_CHECK(seq == last + 1, "order", "without a worker pool client %u's request %u ran after its request %u", who, seq, last); }
}
static uint64_t* g_toks; static _Atomic int* g_expect_conn; static atomic_uint g_ntoks;
static void* sender(void* p) {
    struct bc* b = p; int left = b->n; uint32_t seq = 0;
    while (left > 0) {
        int conn = -1, use_raw = b->leave && (vt_rand() & 1), batch = b->leave ? 1 + (int)vt_below(60) : left; if (batch > left) batch = left; left -= batch;
        gracht_client_t* c = 0; int fd = -1; uint8_t* raw = 0;
        inc(&n_clients);
        if (use_raw) {
            fd = raw_connect_unix(S.path); if (fd < 0) vt_viol("connect", "connect failed %d", errno);
            raw = malloc(g_maxn + 64); uint64_t t = tk_new(K_NORMAL); uint32_t l = raw_msg(raw, 1, SVC, A_ECHO, MESSAGE_FLAG_SYNC, t, ARG(0, 0), 0), got;
            if (raw_write(fd, raw, l)) vt_viol("connect", "write failed %d", errno);
            if (raw_read_msg(fd, raw, g_maxn + 64, &got) != 1) vt_viol("no-response", "a client did not get its response");
            conn = atomic_load_explicit(&tk_conn[tk_idx(t)], memory_order_relaxed);
        } else { c = cl_connect_unix(S.path, (int)g_maxn + HDR + REQ_FIXED, 0); call_sync(c, A_ECHO, 3, 3, &conn); }
        for (int i = 0; i < batch; i++) {
            uint64_t t = tk_new(K_NORMAL); uint32_t x = vt_rand() & 7 ? vt_below(40) : vt_below(g_maxn + 1); int act = vt_rand() & 1 ? A_NOTIFY : A_NOTIFY2; uint32_t arg = ARG(vt_below(100) < (uint32_t)vt_arg("slow", 10) ? 1 + vt_below(3) : 0, 0);
            atomic_store_explicit(&tk_act[tk_idx(t)], act, memory_order_relaxed);
            atomic_store_explicit(&g_seqof[tk_idx(t)], ((uint64_t)b->no << 32) | ++seq, memory_order_relaxed);
            uint32_t k = atomic_fetch_add_explicit(&g_ntoks, 1, memory_order_relaxed); g_toks[k] = t; atomic_store_explicit(&g_expect_conn[k], conn, memory_order_relaxed);
            int st;
            if (use_raw) { uint32_t l = raw_msg(raw, 0, SVC, (uint8_t)act, MESSAGE_FLAG_ASYNC, t, arg, x); st = raw_write_cut(fd, raw, l, (int)vt_below(4)); }
            else st = cl_async(c, SVC, (uint8_t)act, t, arg, x);
            if (st) vt_viol("call-failed", "a request could not be sent to a running server (errno %d)", errno);
            inc(&n_sent); vt_progress();
        }
        if (use_raw) { if (vt_rand() & 1) shutdown(fd, SHUT_WR); close(fd); free(raw); inc(&n_left); }
        else { if (!b->leave) call_sync(c, A_ECHO, 0, 0, &conn); gracht_client_shutdown(c); inc(&n_left); }
        /* the order of one client is only defined within one connection; wait until it has drained */
        if (b->leave && left > 0 && g_ordered) { while (atomic_load_explicit(&g_lastseq[b->no], memory_order_relaxed) != seq) vt_usleep(500); }
    }
    return 0;
}
static int all_ran(void* a) { (void)a; uint32_t n = atomic_load(&g_ntoks); for (uint32_t i = 0; i < n; i++) if (tk_ran(g_toks[i]) != 1) return 0; return 1; }
void scen_burst(void) {
    S.workers = (int)vt_arg("workers", 2); S.max_msg = (int)vt_arg("max", 0); S.stream = 1; S.selfdriven = (int)vt_arg("self", 0);
    int nc = (int)vt_arg("clients", 3), n = (int)vt_arg("n", 400); g_ordered = S.workers <= 1; g_maxn = (uint32_t)(S.max_msg ? S.max_msg : 2048) - HDR - REQ_FIXED;
    g_toks = calloc((size_t)(nc * n + 1), sizeof *g_toks); g_expect_conn = calloc((size_t)(nc * n + 1), sizeof *g_expect_conn);
    rt_on_handler = on_handler;
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S);
    struct bc b[64]; pthread_t th[64];
    for (int i = 0; i < nc; i++) { b[i].no = i; b[i].n = n; b[i].leave = (int)vt_arg("leave", 1) && (i % 2); pthread_create(&th[i], 0, sender, &b[i]); }
    for (int i = 0; i < nc; i++) pthread_join(th[i], 0);
    if (!vt_settle(all_ran, 0)) { int miss = 0, twice = 0; for (uint32_t i = 0; i < g_ntoks; i++) { int r = tk_ran(g_toks[i]); if (!r) miss++; else if (r > 1) twice++; } vt_viol("lost-request", "%d of %u sent requests never ran their handler, %d ran twice", miss, g_ntoks, twice); }
    for (uint32_t i = 0; i < g_ntoks; i++) VT_CHECK(atomic_load(&tk_conn[tk_idx(g_toks[i])]) == g_expect_conn[i], "identity", "a request ran with the identity of another client");
    srv_stop(&S);
    VT_CHECK(all_ran(0), "executed-twice", "a request ran again during shutdown");
    vt_stat("requests_sent", ldl(&n_sent)); vt_stat("requests_executed", ldl(&rt_handled)); vt_stat("connections", ldl(&n_clients)); vt_stat("left_right_after_sending", ldl(&n_left)); vt_stat("order_checks", ldl(&n_order));
    vt_sample("burst: %lld requests over %lld connections, workers %d", ldl(&n_sent), ldl(&n_clients), S.workers);
    free(g_toks); free((void*)g_expect_conn);
}
