#include "rt.h"
/* C05, C04, C06, C09: everything the library allows from within its callbacks: handlers, connection callbacks and event callbacks use the API again. */
static struct srv S; static atomic_int g_quiet, g_drain_stop, g_finished; static int g_rounds, g_threads, g_nc, g_p;
enum { EV_NONE, EV_SINGLE, EV_ALL, EV_WELCOME };
static _Atomic uint8_t ev_kind[MAXTOK], ev_st[MAXTOK], ev_sender[MAXTOK]; static _Atomic int ev_to[MAXTOK];
static atomic_int g_snd; static __thread int t_snd; static __thread int t_depth; static __thread struct ec* t_self;
struct ec { gracht_client_t* c; atomic_int conn; _Atomic uint8_t* got; atomic_int welcomes, wconn; uint32_t last[64]; };
static struct ec E[8];
static atomic_llong n_hooks, n_single, n_all, n_disc, n_conns, n_nested, n_nested_calls, n_regs, n_recv, n_welcome, n_callback_acts[6], n_depth2;
static uint64_t ev_new(int kind, int to) {
    uint64_t t = tk_new(K_FORBIDDEN); uint32_t i = tk_idx(t);
    if (!t_snd) t_snd = 1 + atomic_fetch_add(&g_snd, 1);
    atomic_store_explicit(&ev_kind[i], (uint8_t)kind, memory_order_relaxed); atomic_store_explicit(&ev_to[i], to, memory_order_relaxed); atomic_store_explicit(&ev_sender[i], (uint8_t)(t_snd < 64 ? t_snd : 0), memory_order_relaxed);
    return t;
}
static void single(gracht_server_t* s, int kind, int conn, int departing) {
    uint64_t t = ev_new(kind, conn); int st = ev_send(s, conn, kind == EV_WELCOME ? SVC : ev_services[vt_below(NSVC)], E_TICK2, t, vt_below(200), GRACHT_MESSAGE_BLOCK);
    if (!departing && kind != EV_WELCOME && st) { for (int i = 0; i < g_nc; i++) if (ld(&E[i].conn) == conn) vt_viol("event-send-failed", "a handler could not send an event to its connected caller (%d, errno %d)", st, errno); }
    atomic_store_explicit(&ev_st[tk_idx(t)], st ? 2 : 1, memory_order_relaxed); inc(&n_single);
}
static void all(gracht_server_t* s) { uint64_t t = ev_new(EV_ALL, -1); ev_broadcast(s, ev_services[vt_below(NSVC)], E_TICK, t, vt_below(200), GRACHT_MESSAGE_BLOCK); inc(&n_all); }
/* ---- server side callbacks ---- */
static pthread_mutex_t g_dm = PTHREAD_MUTEX_INITIALIZER; static int g_reg[3];
static void dyn(struct gracht_message* m, gracht_buffer_t* b) { (void)m; (void)b; vt_viol("forbidden-executed", "a handler nobody called ran"); }
static gracht_protocol_function_t df[] = { { 1, dyn } }; VT_TABLE(df, 0)
static gracht_protocol_t dp[3] = { GRACHT_PROTOCOL_INIT(2, "a", 1, df), GRACHT_PROTOCOL_INIT(40, "b", 1, df), GRACHT_PROTOCOL_INIT(77, "c", 1, df) };
static void registration(gracht_server_t* s) {
    int k = (int)vt_below(3); pthread_mutex_lock(&g_dm); inc(&n_regs);
    if (vt_rand() & 1) { int st = gracht_server_register_protocol(s, &dp[k]); VT_CHECK(g_reg[k] ? st == -1 : st == 0, g_reg[k] ? "register-twice" : "register", "registering a service from a handler returned %d (registered before: %d)", st, g_reg[k]); g_reg[k] = 1; }
    else { gracht_server_unregister_protocol(s, &dp[k]); g_reg[k] = 0; }
    pthread_mutex_unlock(&g_dm);
}
static void hook(struct gracht_message* m, int act, struct req* r) {
    (void)act; (void)r;
    if (!ld(&g_quiet)) {
        if ((int)vt_below(100) < g_p) single(m->server, EV_SINGLE, m->client, 0);
        if ((int)vt_below(100) < g_p / 2) all(m->server);
        if (vt_below(5) == 0) registration(m->server);
    }
    inc(&n_hooks);
}
static void on_conn(gracht_conn_t c) { single(S.s, EV_WELCOME, c, 0); inc(&n_conns); if (!ld(&g_quiet) && vt_below(3) == 0) all(S.s); if (!ld(&g_quiet) && vt_below(4) == 0) registration(S.s); app_errno(); }
static void on_disc(gracht_conn_t c) { if (!ld(&g_quiet)) { if (vt_rand() & 1) single(S.s, EV_SINGLE, c, 1); if (vt_below(3) == 0) all(S.s); } inc(&n_disc); vt_progress(); app_errno(); }
/* ---- client side ---- */
static void act(gracht_client_t* c, int* conn) {
    struct call k[3]; struct gracht_message_context* cx[3]; int st, n, a = (int)vt_below(6);
    inc(&n_callback_acts[a]);
    switch (a) {
    case 0: if (cl_async(c, SVC, A_NOTIFY, tk_new(K_NORMAL), 0, vt_below(100))) vt_viol("call-failed", "a call could not be sent from a callback (errno %d)", errno); break;
    case 1: call_sync(c, vt_rand() & 1 ? A_ECHO : A_DEFER, vt_below(100), vt_below(100), conn); break;
    case 2: cl_subscribe(c, vt_rand() & 1 ? 99 : 100, (int)(vt_rand() & 1)); break;
    case 3: if (gracht_client_wait_message(c, NULL, 0)) VT_CHECK(errno == EAGAIN || errno == EBUSY, "poll", "polling a live connection failed with errno %d", errno); break;
    default:
        n = 1 + (int)vt_below(3);
        for (int i = 0; i < n; i++) { if (call_start(c, &k[i], vt_rand() & 1 ? A_ECHO : A_DEFER, vt_below(60), vt_below(60), (int)vt_below(2))) vt_viol("call-failed", "a call could not be sent from a callback (errno %d)", errno); cx[i] = &k[i].ctx; }
        if (gracht_client_await_multiple(c, cx, n, GRACHT_AWAIT_ALL)) vt_viol("wait-failed", "awaiting calls from a callback failed (errno %d)", errno);
        for (int i = 0; i < n; i++) { st = call_collect(c, &k[i], conn); VT_CHECK(st == GRACHT_MESSAGE_COMPLETED, "wait-early", "awaiting all calls returned success but one has status %d", st); inc(&n_nested_calls); }
    }
}
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) {
    struct ec* e = t_self; for (int i = 0; i < g_nc; i++) if (E[i].c == c) e = &E[i];
    VT_CHECK(ok, "event-corrupt", "an event of service %d arrived with other values than sent (%u bytes)", svc, r->n);
    uint32_t x = tk_idx(r->token); uint64_t token = r->token; int kind = atomic_load_explicit(&ev_kind[x], memory_order_relaxed), to = atomic_load_explicit(&ev_to[x], memory_order_relaxed), conn = ld(&e->conn), snd = ev_sender[x];
    VT_CHECK(tk_valid(token) && kind != EV_NONE, "event-unknown", "an event arrived that nobody sent"); VT_CHECK((ev == E_TICK) == (kind == EV_ALL), "event-corrupt", "an event was delivered as another event (%d)", ev);
    inc(&n_recv);
    if (kind == EV_WELCOME) { if (atomic_fetch_add_explicit(&e->welcomes, 1, memory_order_relaxed)) vt_viol("event-duplicated", "the event of the connection callback arrived twice"); atomic_store_explicit(&e->wconn, to, memory_order_relaxed); inc(&n_welcome); }
    else if (kind == EV_SINGLE && conn != -1) VT_CHECK(to == conn, "event-misdelivered", "an event addressed to client %d was delivered to client %d", to, conn);
    if (e->got && atomic_fetch_add_explicit(&e->got[x], 1, memory_order_relaxed)) vt_viol("event-duplicated", "a client received one event twice");
    if (g_threads == 1 && snd) { VT_CHECK(e->last[snd] < x, "event-order", "events of one sender arrived out of order"); e->last[snd] = x; }
    if (t_depth >= 2 || ld(&g_quiet) || (int)vt_below(100) >= g_p) return;
    uint8_t* keep = malloc(r->n + 1u); uint32_t n = r->n; if (n) memcpy(keep, r->data, n); const uint8_t* data = r->data;
    int cn = conn; t_depth++; inc(&n_nested); if (t_depth == 2) inc(&n_depth2); act(c, &cn); t_depth--;
    VT_CHECK(!n || !memcmp(keep, data, n), "event-corrupt", "the values of an event changed while its callback was running"); free(keep);
}
static void* user(void* p) {
    struct ec* e = p; int conn = ld(&e->conn);
    for (int i = 0; i < g_rounds; i++) { act(e->c, &conn); if (vt_below(4) == 0) call_sync(e->c, A_ECHO, vt_below(300), vt_below(300), &conn); }
    atomic_fetch_add(&g_finished, 1); vt_progress();
    while (vt_bg(&g_drain_stop)) { gracht_client_wait_message(e->c, NULL, 0); vt_usleep(200); }
    return 0;
}
static void meet(struct ec* e) {
    int conn = -1; call_sync(e->c, A_ECHO, 0, 0, &conn); atomic_store_explicit(&e->conn, conn, memory_order_relaxed);
    VT_CHECK(ld(&e->welcomes) == 1, "event-lost", "the event sent by the connection callback did not arrive before the first response (%d arrived)", ld(&e->welcomes));
    VT_CHECK(ld(&e->wconn) == conn, "identity", "the connection callback was given client %d, the handlers see client %d", ld(&e->wconn), conn);
}
static void* churner(void* p) {
    int n = *(int*)p;
    for (int i = 0; i < n; i++) {
        struct ec e; memset(&e, 0, sizeof e); t_self = &e; e.conn = -1; e.c = cl_connect_unix(S.path, 2048, 128 * 1024); ev_register(e.c);
        int quick = vt_below(3) == 0; if (!quick) { meet(&e); int conn = e.conn, k = (int)vt_below(4); while (k--) act(e.c, &conn); }
        gracht_client_shutdown(e.c); vt_progress();
    }
    return 0;
}
static int at_rest(void* a) { (void)a; if (ldl(&n_hooks) != ldl(&rt_handled)) return 0; for (uint32_t i = 1; i < tk_count(); i++) if (!ev_kind[i] && !tk_exec[i]) return 0; return ldl(&n_conns) - ldl(&n_disc) == g_nc; }
void scen_reentry(void) {
    S.workers = (int)vt_arg("workers", 2); S.stream = 1; S.selfdriven = (int)vt_arg("self", 0); g_rounds = (int)vt_arg("rounds", 40); g_threads = (int)vt_arg("threads", 1); g_p = (int)vt_arg("p", 30); g_nc = (int)vt_arg("clients", 3); int nch = (int)vt_arg("churn", 10);
    S.connected = on_conn; S.disconnected = on_disc; ev_callback = on_event; rt_on_handler = hook;
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); atomic_store(&g_quiet, 1); srv_start(&S); rt_responders_start(1);
    for (int i = 0; i < g_nc; i++) { E[i].conn = -1; E[i].got = calloc(MAXTOK, 1); E[i].c = cl_connect_unix(S.path, 2048, 512 * 1024); ev_register(E[i].c); meet(&E[i]); }
    uint32_t first = tk_count(); atomic_store(&g_quiet, 0);
    pthread_t th[8][4], ch; pthread_create(&ch, 0, churner, &nch);
    for (int i = 0; i < g_nc; i++) for (int t = 0; t < g_threads; t++) pthread_create(&th[i][t], 0, user, &E[i]);
    while (ld(&g_finished) < g_nc * g_threads) vt_usleep(500);
    pthread_join(ch, 0); atomic_store(&g_quiet, 1);
    if (!vt_settle(at_rest, 0)) {
        int lost = 0; for (uint32_t i = 1; i < tk_count(); i++) if (!ev_kind[i] && !tk_exec[i]) lost++;
        vt_viol("lost", "%d requests sent from callbacks were never executed (%lld handlers began, %lld ended, %lld clients connected, %lld left, %d remain)", lost, ldl(&rt_handled), ldl(&n_hooks), ldl(&n_conns), ldl(&n_disc), g_nc);
    }
    atomic_store(&g_drain_stop, 1);
    for (int i = 0; i < g_nc; i++) for (int t = 0; t < g_threads; t++) pthread_join(th[i][t], 0);
    for (int i = 0; i < g_nc; i++) { int conn = E[i].conn; call_sync(E[i].c, A_ECHO, 0, 0, &conn); }
    for (uint32_t x = first; x < tk_count(); x++) for (int i = 0; i < g_nc; i++) {
        int due = ev_kind[x] == EV_ALL ? 1 : ev_kind[x] == EV_SINGLE && ev_to[x] == ld(&E[i].conn); int got = E[i].got[x];
        VT_CHECK(got || !due, "event-lost", "client %d did not receive an event sent from a callback (%s)", i, ev_kind[x] == EV_ALL ? "broadcast" : "addressed to it");
        VT_CHECK(due || !got, "event-misdelivered", "client %d received an event addressed to client %d", i, ev_to[x]);
    }
    for (int k = 0; k < 3; k++) gracht_server_unregister_protocol(S.s, &dp[k]);
    for (int i = 0; i < g_nc; i++) { gracht_client_shutdown(E[i].c); free((void*)E[i].got); }
    rt_responders_stop(); srv_stop(&S);
    vt_stat("callback_actions", ldl(&n_nested)); vt_stat("callbacks_within_callbacks", ldl(&n_depth2)); vt_stat("calls_awaited_in_callbacks", ldl(&n_nested_calls)); vt_stat("handler_events", ldl(&n_single)); vt_stat("handler_broadcasts", ldl(&n_all)); vt_stat("handler_registrations", ldl(&n_regs)); vt_stat("events_received", ldl(&n_recv)); vt_stat("welcomes", ldl(&n_welcome)); vt_stat("disconnect_callbacks", ldl(&n_disc));
    vt_sample("reentry: %d clients x %d threads, workers %d: %lld callbacks used the client again, handlers sent %lld events and %lld broadcasts", g_nc, g_threads, S.workers, ldl(&n_nested), ldl(&n_single), ldl(&n_all));
}
