#include "rt.h"
_Atomic uint8_t tk_exec[MAXTOK], tk_kind[MAXTOK], tk_resp[MAXTOK], tk_bg[MAXTOK], tk_done[MAXTOK]; _Atomic int tk_conn[MAXTOK], tk_act[MAXTOK];
static atomic_uint g_tok = 1;
atomic_llong rt_handled, rt_responded, rt_deferred, rt_respond_fail, rt_malformed;
atomic_int rt_stopped; int rt_tolerate_malformed; uint32_t rt_size_limit = 0xffffffffu;
void (*rt_on_handler)(struct gracht_message*, int, struct req*);
static uint64_t salt(uint32_t i) { return (vt_mix(vt_seed * 1000003ULL + i) & 0xffffffULL) << 20; }
uint64_t tk_new(int kind) {
    uint32_t i = atomic_fetch_add_explicit(&g_tok, 1, memory_order_relaxed); if (i >= MAXTOK) vt_internal("out of tokens");
    atomic_store_explicit(&tk_kind[i], (uint8_t)kind, memory_order_relaxed); if (vt_is_bg) atomic_store_explicit(&tk_bg[i], 1, memory_order_relaxed);
    return salt(i) | i;
}
int tk_valid(uint64_t t) { uint32_t i = tk_idx(t); return i && i < atomic_load_explicit(&g_tok, memory_order_relaxed) && t == (salt(i) | i); }
uint32_t tk_count(void) { return atomic_load_explicit(&g_tok, memory_order_relaxed); }

static void tk_step(uint64_t t, uint64_t what) { if (atomic_load_explicit(&tk_bg[tk_idx(t)], memory_order_relaxed)) vt_trace_bg(what); else vt_trace(what); }
static void handler_sleep(uint32_t arg) {
    switch (arg & 0xff) { case 0: break; case 1: vt_usleep(1 + vt_below(50)); break; case 2: vt_usleep(vt_below(500)); break; case 3: vt_usleep(2000); break; case 4: vt_usleep(20000); break; case 5: vt_usleep(100000); break; default: break; }
}
/* 1 when the request is intact and recorded */
static int record(struct gracht_message* m, gracht_buffer_t* b, int action, struct req* r) {
    if (ld(&rt_stopped)) vt_viol("handler-after-stop", "a handler started after the server had stopped");
    if (m->size < HDR || m->size > rt_size_limit) vt_viol("bad-length-executed", "a handler (action %d) was invoked for a message with a stated length of %u", action, m->size);
    if (b->index + REQ_FIXED > m->size) goto malformed;
    get_req(b, r);
    if (r->n > m->size - b->index - REQ_FIXED) goto malformed;
    if (!rt_tolerate_malformed || tk_valid(r->token)) {
        if (!tk_valid(r->token)) vt_viol("request-corrupt", "a handler (action %d) received a request nobody sent (token %llx n %u)", action, (unsigned long long)r->token, r->n);
        uint32_t i = tk_idx(r->token);
        if (atomic_load_explicit(&tk_kind[i], memory_order_relaxed) == K_FORBIDDEN) vt_viol("forbidden-executed", "a handler (action %d) ran for a message that must not be executed (stated length %u)", action, m->size);
        if (!vt_verify(r->data, r->n, r->token)) vt_viol("request-corrupt", "a request's arguments differ from those sent (action %d, %u bytes)", action, r->n);
        if (!rt_tolerate_malformed && b->index + REQ_FIXED + r->n != m->size) vt_viol("request-corrupt", "a request's size %u differs from the size sent %u", m->size, b->index + REQ_FIXED + r->n);
        int want = atomic_load_explicit(&tk_act[i], memory_order_relaxed);
        if (want && want != action) vt_viol("wrong-handler", "action %d was requested but the handler of action %d ran", want, action);
        atomic_store_explicit(&tk_conn[i], m->client, memory_order_relaxed);
        if (atomic_fetch_add_explicit(&tk_exec[i], 1, memory_order_relaxed)) vt_viol("executed-twice", "one request ran its handler more than once (action %d)", action);
    }
    inc(&rt_handled); tk_step(r->token, r->token);
    if (rt_on_handler) rt_on_handler(m, action, r);
    return 1;
malformed:
    inc(&rt_malformed);
    if (!rt_tolerate_malformed) vt_viol("request-corrupt", "a handler (action %d) received a truncated request of %u bytes", action, m->size);
    return 0;
}
static int respond(struct gracht_message* m, int action, uint64_t token, uint32_t arg) {
    gracht_buffer_t o; long long f = vt_fault_fired();
    while (gracht_server_get_buffer(m->server, &o)) { if (f != vt_fault_fired()) { f = vt_fault_fired(); vt_usleep(100); continue; } vt_viol("no-buffer", "the server has no send buffer left (errno %d)", errno); }
    put_hdr(&o, SVC, (uint8_t)action, MESSAGE_FLAG_RESPONSE); put_req(&o, token ^ RESP, (uint32_t)m->client, arg >> 8);
    f = vt_fault_fired(); int st = gracht_server_respond(m, &o);
    if (st && errno == ENOBUFS && vt_fault_fired() > f) return respond(m, action, token, arg);   /* nothing has been sent; if something has, then the connection is gone */
    if (tk_valid(token)) atomic_store_explicit(&tk_resp[tk_idx(token)], st ? 2 : 1, memory_order_relaxed);
    if (st) inc(&rt_respond_fail); else inc(&rt_responded);
    return st;
}
/* an application may leave anything in errno */
void app_errno(void) { static const int v[] = { 0, EPIPE, ENOMEM, EAGAIN, EFAULT, ENODATA, EINTR, ENOENT, EINVAL, EBUSY, ECONNRESET }; errno = v[vt_below(sizeof v / sizeof *v)]; }
/* at the end of a run: what was reported as not sent has not arrived */
void rt_final(void) {
    uint32_t n = tk_count(); if (n > MAXTOK) n = MAXTOK;
    for (uint32_t i = 1; i < n; i++) if (atomic_load_explicit(&tk_resp[i], memory_order_relaxed) == 2 && atomic_load_explicit(&tk_done[i], memory_order_relaxed)) vt_viol("reported-failed", "a response reached its caller, but the handler was told that it had not been sent");
}
static void h_echo(struct gracht_message* m, gracht_buffer_t* b) { struct req r; if (!record(m, b, A_ECHO, &r)) return; handler_sleep(r.arg); respond(m, A_ECHO, r.token, r.arg); app_errno(); }
static void h_big(struct gracht_message* m, gracht_buffer_t* b) { struct req r; if (!record(m, b, A_BIG, &r)) return; handler_sleep(r.arg); respond(m, A_BIG, r.token, r.arg); app_errno(); }
static void h_notify(struct gracht_message* m, gracht_buffer_t* b) { struct req r; if (record(m, b, A_NOTIFY, &r)) handler_sleep(r.arg); app_errno(); }
static void h_notify2(struct gracht_message* m, gracht_buffer_t* b) { struct req r; if (record(m, b, A_NOTIFY2, &r)) handler_sleep(r.arg); app_errno(); }
static void h_silent(struct gracht_message* m, gracht_buffer_t* b) { struct req r; if (record(m, b, A_SILENT, &r)) handler_sleep(r.arg); app_errno(); }
static void h_fire(struct gracht_message* m, gracht_buffer_t* b) {
    struct req r; if (!record(m, b, A_FIRE, &r)) return;
    ev_send(m->server, m->client, SVC, E_TICK2, r.token ^ RESP, r.arg >> 8, GRACHT_MESSAGE_BLOCK); app_errno();
}
/* deferred responses */
struct def { struct gracht_message* m; uint64_t token; uint32_t arg; };
static struct def* g_defs; static int g_ndef, g_capdef, g_resp_stop, g_hold; static pthread_mutex_t g_dm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t g_dc = PTHREAD_COND_INITIALIZER;
static pthread_t g_rt[8]; static int g_nrt;
static void h_defer(struct gracht_message* m, gracht_buffer_t* b) {
    struct req r; if (!record(m, b, A_DEFER, &r)) return;
    struct def d; d.token = r.token; d.arg = r.arg;
    d.m = malloc(GRACHT_MESSAGE_DEFERRABLE_SIZE(m)); gracht_server_defer_message(m, d.m);
    inc(&rt_deferred);
    pthread_mutex_lock(&g_dm);
    if (g_ndef == g_capdef) { g_capdef = g_capdef ? g_capdef * 2 : 64; g_defs = realloc(g_defs, sizeof *g_defs * (size_t)g_capdef); }
    g_defs[g_ndef++] = d; pthread_cond_signal(&g_dc); pthread_mutex_unlock(&g_dm); app_errno();
}
static void* responder(void* a) {
    (void)a; pthread_mutex_lock(&g_dm);
    for (;;) {
        while ((!g_ndef || g_hold) && !g_resp_stop) pthread_cond_wait(&g_dc, &g_dm);
        if (!g_ndef) break;
        int k = (int)vt_below((uint32_t)g_ndef); struct def d = g_defs[k]; g_defs[k] = g_defs[--g_ndef];
        pthread_mutex_unlock(&g_dm);
        if (!g_resp_stop) handler_sleep(d.arg);
        respond(d.m, A_DEFER, d.token, d.arg); free(d.m); tk_step(d.token, 0);
        pthread_mutex_lock(&g_dm);
    }
    pthread_mutex_unlock(&g_dm); return 0;
}
void rt_discard(void) { pthread_mutex_lock(&g_dm); for (int i = 0; i < g_ndef; i++) free(g_defs[i].m); g_ndef = 0; free(g_defs); g_defs = 0; g_capdef = 0; pthread_mutex_unlock(&g_dm); }
void rt_hold(int h) { pthread_mutex_lock(&g_dm); g_hold = h; pthread_cond_broadcast(&g_dc); pthread_mutex_unlock(&g_dm); }
int rt_pending(void) { pthread_mutex_lock(&g_dm); int n = g_ndef; pthread_mutex_unlock(&g_dm); return n; }
void rt_responders_start(int n) { g_resp_stop = 0; g_nrt = n; for (int i = 0; i < n; i++) if (pthread_create(&g_rt[i], 0, responder, 0)) vt_internal("responder"); }
void rt_responders_stop(void) {
    pthread_mutex_lock(&g_dm); g_resp_stop = 1; g_hold = 0; pthread_cond_broadcast(&g_dc); pthread_mutex_unlock(&g_dm);
    for (int i = 0; i < g_nrt; i++) pthread_join(g_rt[i], 0);
    for (int i = 0; i < g_ndef; i++) free(g_defs[i].m);
    g_nrt = 0; g_ndef = 0; free(g_defs); g_defs = 0; g_capdef = 0;
}
static gracht_protocol_function_t g_funcs[] = { { A_ECHO, h_echo }, { A_DEFER, h_defer }, { A_NOTIFY, h_notify }, { A_FIRE, h_fire }, { A_SILENT, h_silent }, { A_NOTIFY2, h_notify2 }, { A_BIG, h_big } };
gracht_protocol_t rt_server_protocol = GRACHT_PROTOCOL_INIT(17, "vt", sizeof g_funcs / sizeof g_funcs[0], g_funcs);
VT_TABLE(g_funcs, &rt_server_protocol.id)

int ev_send(gracht_server_t* s, gracht_conn_t c, uint8_t svc, uint8_t ev, uint64_t token, uint32_t n, unsigned flags) {
    gracht_buffer_t o; if (gracht_server_get_buffer(s, &o)) return -2;
    put_hdr(&o, svc, ev, MESSAGE_FLAG_EVENT); put_req(&o, token, svc, n);
    return gracht_server_send_event(s, c, &o, flags);
}
int ev_broadcast(gracht_server_t* s, uint8_t svc, uint8_t ev, uint64_t token, uint32_t n, unsigned flags) {
    gracht_buffer_t o; if (gracht_server_get_buffer(s, &o)) return -2;
    put_hdr(&o, svc, ev, MESSAGE_FLAG_EVENT); put_req(&o, token, svc, n);
    return gracht_server_broadcast_event(s, &o, flags);
}
uint8_t ev_services[NSVC];
void (*ev_callback)(gracht_client_t*, int, int, struct req*, int);
static void on_ev(gracht_client_t* c, gracht_buffer_t* b, int svc, int ev) {
    struct req r; get_req(b, &r); int ok = (int)r.arg == svc && r.n < (1u << 28) && vt_verify(r.data, r.n, r.token); tk_step(r.token, r.token ^ 1);
    if (ev_callback) ev_callback(c, svc, ev, &r, ok);
    app_errno();
}
#define EV(k) static void ev1_##k(gracht_client_t* c, gracht_buffer_t* b) { on_ev(c, b, ev_services[k], E_TICK); } static void ev2_##k(gracht_client_t* c, gracht_buffer_t* b) { on_ev(c, b, ev_services[k], E_TICK2); } \
    static gracht_protocol_function_t evf_##k[] = { { E_TICK, ev1_##k }, { E_TICK2, ev2_##k } }; VT_TABLE(evf_##k, 0)
EV(0) EV(1) EV(2) EV(3) EV(4) EV(5) EV(6) EV(7) EV(8) EV(9) EV(10) EV(11)
#define EVP(k) GRACHT_PROTOCOL_INIT(17, "ev", 2, evf_##k)
static gracht_protocol_t g_evp[NSVC] = { EVP(0), EVP(1), EVP(2), EVP(3), EVP(4), EVP(5), EVP(6), EVP(7), EVP(8), EVP(9), EVP(10), EVP(11) };
/* slot 0 is the service of the calls; the others are chosen per run, with neighbours of each other in every way a table of bits can confuse */
void rt_services(void) {
    static const uint8_t edge[] = { 1, 31, 32, 33, 63, 64, 127, 128, 200, 223, 224, 253, 254 }; static const int step[] = { 1, -1, 8, -8, 16, 32, -32, 31, -31, 64, -64, 128, -128 };
    ev_services[0] = SVC;
    for (int i = 1; i < NSVC; ) {
        int v; switch (vt_below(3)) { case 0: v = edge[vt_below(sizeof edge)]; break; case 1: v = ev_services[vt_below((uint32_t)i)] + step[vt_below(13)]; break; default: v = 1 + (int)vt_below(254); break; }
        int bad = v < 1 || v > 254 || v == 2 || v == 40 || v == 77 || v == 99 || v == 100; for (int j = 0; j < i && !bad; j++) bad = ev_services[j] == v;
        if (!bad) ev_services[i++] = (uint8_t)v;
    }
    for (int i = 0; i < NSVC; i++) g_evp[i].id = ev_services[i];
}
void ev_register(gracht_client_t* c) { for (int i = 0; i < NSVC; i++) if (gracht_client_register_protocol(c, &g_evp[i])) vt_viol("register", "client protocol could not be registered"); }

int call_start(gracht_client_t* c, struct call* k, int act, uint32_t n, uint32_t resp_n, int sc) {
    memset(k, 0, sizeof *k); k->token = tk_new(K_NORMAL); k->act = act; k->resp_n = resp_n;
    atomic_store_explicit(&tk_act[tk_idx(k->token)], act, memory_order_relaxed);
    return cl_call(c, &k->ctx, SVC, (uint8_t)act, k->token, ARG(sc, resp_n), n);
}
void call_done_checks(struct call* k, int conn) {
    int e = tk_ran(k->token);
    VT_CHECK(e == 1, "response-without-handler", "a call was completed but its handler ran %d times", e);
    VT_CHECK(atomic_load_explicit(&tk_conn[tk_idx(k->token)], memory_order_relaxed) == conn, "identity", "the handler saw another client identity than the response");
}
int call_collect(gracht_client_t* c, struct call* k, int* conn) {
    uint64_t t = 0; uint32_t a = 0, n = 0; int ok = 0;
    int st = cl_result(c, &k->ctx, &t, &a, &n, &ok);
    if (st == GRACHT_MESSAGE_COMPLETED) {
        VT_CHECK(t == (k->token ^ RESP), "wrong-response", "a call received a response that is not its own (token %llx instead of %llx)", (unsigned long long)t, (unsigned long long)(k->token ^ RESP));
        VT_CHECK(ok && n == k->resp_n, "response-corrupt", "a response arrived with other values than were sent (%u bytes, expected %u)", n, k->resp_n);
        call_done_checks(k, (int)a);
        if (conn) { VT_CHECK(*conn == -1 || *conn == (int)a, "identity", "one connection's calls were attributed to two clients (%d and %d)", *conn, (int)a); *conn = (int)a; }
        k->done = 1; atomic_store_explicit(&tk_done[tk_idx(k->token)], 1, memory_order_relaxed); vt_trace(t);
        errno = 0; st = cl_result(c, &k->ctx, &t, &a, &n, &ok);
        VT_CHECK(st == -1, "collected-twice", "the result of one call could be collected twice (second status %d)", st);
        return GRACHT_MESSAGE_COMPLETED;
    }
    return st;
}
void call_sync(gracht_client_t* c, int act, uint32_t n, uint32_t resp_n, int* conn) {
    struct call k; int st;
    if (call_start(c, &k, act, n, resp_n, 0)) vt_viol("call-failed", "a call could not be sent to a running server (errno %d)", errno);
    if (gracht_client_wait_message(c, &k.ctx, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting for a call's response failed (errno %d)", errno);
    st = call_collect(c, &k, conn);
    VT_CHECK(st == GRACHT_MESSAGE_COMPLETED, "wait-early", "waiting for a call returned success but the call's status is %d", st);
}
