#include "rt.h"
#include <fcntl.h>
#include <sys/epoll.h>
/* C13: shutdown always completes and releases everything. */
static struct srv* G; static atomic_int g_trigger, g_fired, g_flood_stop; static atomic_llong n_rounds, n_from[6], n_flood, n_clients, n_unstarted, n_partial;
static void fire(void) { if (ld(&g_trigger) && !atomic_exchange(&g_fired, 1)) gracht_server_request_shutdown(G->s); }
static void on_handler(struct gracht_message* m, int a, struct req* r) { (void)m; (void)a; (void)r; if (ld(&g_trigger) == 1) fire(); }
static void on_conn(gracht_conn_t c) { (void)c; if (ld(&g_trigger) == 2) fire(); app_errno(); }
static void on_disc(gracht_conn_t c) { (void)c; if (ld(&g_trigger) == 3) fire(); app_errno(); }
static void* flood(void* p) { gracht_client_t* c = p; int k = 600; while (!ld(&g_flood_stop) && k--) { if (cl_async(c, SVC, vt_rand() & 1 ? A_NOTIFY : A_NOTIFY2, tk_new(0), ARG(vt_below(3), 0), vt_below(100))) break; inc(&n_flood); vt_progress(); if (tk_count() > MAXTOK - 100) break; } return 0; }
static int returned(void* a) { return atomic_load(&((struct srv*)a)->returned); }
struct counts { int fds, threads; };
static struct counts g_base;
static int counts_back(void* a) { struct counts* c = a; return vt_count_fds() <= c->fds && vt_count_threads() <= c->threads; }
static void one(int thorough) {
    (void)thorough; struct srv s; memset(&s, 0, sizeof s); G = &s; inc(&n_rounds); struct counts base = g_base;
    static const int wk[] = { 0, 1, 2, 4, 8 }; s.workers = wk[vt_below(5)]; s.stream = vt_below(8) != 0; s.dgram = vt_below(3) == 0; s.selfdriven = vt_below(3) == 0; s.own_epoll = vt_below(3) == 0; s.connected = on_conn; s.disconnected = on_disc; s.max_msg = vt_rand() & 1 ? 0 : 300;
    if (!s.stream && !s.dgram) s.stream = 1;
    int from = (int)vt_below(s.stream ? 6 : 1); int never = vt_below(8) == 0; atomic_store(&rt_stopped, 0); atomic_store(&g_fired, 0); atomic_store(&g_flood_stop, 0); atomic_store(&g_trigger, 0);
    if (never) { s.stream = s.stream && (vt_rand() & 1); s.dgram = s.dgram && (vt_rand() & 1); }
    srv_create(&s); gracht_server_register_protocol(s.s, &rt_server_protocol);
    if (never) { /* never used */
        inc(&n_unstarted); gracht_server_request_shutdown(s.s); errno = 0; int st = vt_rand() & 1 ? gracht_server_main_loop(s.s) : gracht_server_handle_event(s.s, -1, 0); (void)st;
        atomic_store(&rt_stopped, 1); if (s.own_epoll) { VT_CHECK(fcntl(s.epfd, F_GETFD) >= 0, "closed-foreign", "the supplied poll descriptor was closed"); close(s.epfd); } if (s.stream) unlink(s.path);
        if (!vt_settle(counts_back, &base)) vt_viol("shutdown-leak", "an unused server leaves %d descriptors and %d threads behind (before: %d and %d)", vt_count_fds(), vt_count_threads(), base.fds, base.threads);
        return;
    }
    inc(&n_from[from]);
    int early = from == 5 && (vt_rand() & 1);       /* requested before or while the loop starts */
    if (early) gracht_server_request_shutdown(s.s);
    srv_start(&s);
    if (from == 5 && !early) { vt_usleep(vt_below(200)); gracht_server_request_shutdown(s.s); }
    gracht_client_t* c[6]; int nc = 0, nf = 0; pthread_t fl[6]; int raws[4], nr = 0; gracht_client_t* u = 0;
    if (from != 5) {
        if (s.stream) {
            int want = (int)vt_below(5); for (int i = 0; i < want; i++) { c[nc] = cl_connect_unix(s.path, 0, 0); int conn = -1; call_sync(c[nc], A_ECHO, 2, 2, &conn); nc++; inc(&n_clients); }
            for (int i = 0; i < nc; i++) { int k = (int)vt_below(10); for (int j = 0; j < k; j++) { struct gracht_message_context x; static const int acts[] = { A_DEFER, A_SILENT, A_ECHO }; if (cl_call(c[i], &x, SVC, (uint8_t)acts[vt_below(3)], tk_new(0), ARG(vt_below(4), 5), vt_below(60))) break; } }
            if (nc && (vt_rand() & 1)) { nf = 1 + (int)vt_below((uint32_t)nc); for (int i = 0; i < nf; i++) pthread_create(&fl[i], 0, flood, c[i]); }
            while (vt_below(2) && nr < 4) { raws[nr] = raw_connect_unix(s.path); if (raws[nr] >= 0) { uint8_t b[200]; uint32_t l = raw_msg(b, 0, SVC, A_NOTIFY, 1, tk_new(K_FORBIDDEN), 0, 50); raw_write(raws[nr], b, 1 + vt_below(l - 1)); nr++; inc(&n_partial); } else break; }
        }
        if (s.dgram && (vt_rand() & 1)) { u = cl_connect_dgram(&s, 0); cl_subscribe(u, SVC, 1); struct call k; call_start(u, &k, A_ECHO, 1, 1, 0); gracht_client_wait_message(u, &k.ctx, GRACHT_MESSAGE_BLOCK); }
    }
    if (vt_rand() & 1) vt_usleep(vt_below(3000));
    /* request it */
    switch (from) {
    case 0: case 4: gracht_server_request_shutdown(s.s); break;
    case 1: atomic_store(&g_trigger, 1); { int fd = raw_connect_unix(s.path); uint8_t b[100]; uint32_t l = raw_msg(b, 0, SVC, A_NOTIFY, 1, tk_new(0), 0, 3); if (fd >= 0) { raw_write(fd, b, l); while (!ld(&g_fired) && !ld(&s.returned)) vt_usleep(100); close(fd); } break; }
    case 2: atomic_store(&g_trigger, 2); { int fd = raw_connect_unix(s.path); if (fd >= 0) { while (!ld(&g_fired)) vt_usleep(100); close(fd); } break; }
    case 3: atomic_store(&g_trigger, 3); { int fd = raw_connect_unix(s.path); if (fd >= 0) { close(fd); while (!ld(&g_fired)) vt_usleep(100); } break; }
    }
    if (!ld(&s.returned)) srv_poke(&s);
    for (int i = 0; !s.stream && i < 50 && !ld(&s.returned); i++) { vt_msleep(20); srv_poke(&s); }  /* a datagram may be consumed by the event being handled when shutdown was requested */
    if (!vt_settle(returned, &s)) vt_viol("shutdown-stuck", "the server does not stop after a shutdown request and a further event (requested from %d, workers %d)", from, s.workers);
    pthread_join(s.thread, 0); atomic_store(&rt_stopped, 1); long long handled = ldl(&rt_handled);
    if (vt_rand() & 1) vt_usleep(300);
    for (int i = 0; i < nf; i++) pthread_join(fl[i], 0);
    atomic_store(&g_flood_stop, 1);
    for (int i = 0; i < nc; i++) { int n = 0; while (gracht_client_wait_message(c[i], NULL, GRACHT_MESSAGE_BLOCK) == 0 || errno == ENOMEM) VT_CHECK(n++ < 100000, "not-closed", "a client connection stays usable after shutdown"); gracht_client_shutdown(c[i]); }
    for (int i = 0; i < nr; i++) { char b[256]; ssize_t r; while ((r = recv(raws[i], b, sizeof b, 0)) > 0) {} close(raws[i]); }
    if (u) gracht_client_shutdown(u);
    if (s.stream && s.path[0] == '/') { int fd = raw_connect_unix(s.path); /* not for TCP: connecting to a free port may end up connected to itself */ VT_CHECK(fd == -1, "not-closed", "the listening socket is open after shutdown"); unlink(s.path); }
    if (s.own_epoll) { VT_CHECK(fcntl(s.epfd, F_GETFD) >= 0, "closed-foreign", "the supplied poll descriptor was closed"); close(s.epfd); }
    rt_discard();
    VT_CHECK(ldl(&rt_handled) == handled, "handler-after-stop", "a handler ran after the server had stopped");
    if (!vt_settle(counts_back, &base)) vt_viol("shutdown-leak", "after shutdown %d descriptors and %d threads remain (before: %d and %d)", vt_count_fds(), vt_count_threads(), base.fds, base.threads);
    vt_progress();
}
/* a client is shut down whatever is outstanding */
static void client_side(void) {
    struct srv s; memset(&s, 0, sizeof s); s.workers = vt_rand() & 1 ? 2 : 0; s.stream = 1; atomic_store(&rt_stopped, 0); atomic_store(&g_trigger, 0); srv_create(&s); gracht_server_register_protocol(s.s, &rt_server_protocol); srv_start(&s);
    for (int i = 0; i < 6; i++) {
        struct counts base = { vt_count_fds(), vt_count_threads() }; gracht_client_t* c = cl_create_unix(s.path, 0, 0); if (i == 0) { gracht_client_shutdown(c); continue; }
        if (gracht_client_connect(c)) vt_viol("connect", "connect"); ev_register(c); int k = (int)vt_below(8); struct gracht_message_context x[8];
        for (int j = 0; j < k; j++) cl_call(c, &x[j], SVC, vt_rand() & 1 ? A_ECHO : A_SILENT, tk_new(0), ARG(0, 50), 10);
        if (i & 1) { int conn = -1; call_sync(c, A_ECHO, 0, 0, &conn); ev_send(s.s, conn, SVC, E_TICK, tk_new(0), 20, 1); }   /* responses received, not collected */
        if (i == 3) { gracht_client_wait_message(c, NULL, 0); }
        gracht_client_shutdown(c); (void)base;
    }
    srv_stop(&s); vt_progress();
}
void scen_shutdown(void) {
    g_base = (struct counts){ vt_count_fds(), vt_count_threads() }; rt_on_handler = on_handler; int n = (int)vt_arg("rounds", 25); for (int i = 0; i < n; i++) { one(0); if (i % 5 == 0) client_side(); }
    vt_stat("rounds", ldl(&n_rounds)); vt_stat("never_used", ldl(&n_unstarted)); vt_stat("clients", ldl(&n_clients)); vt_stat("flood_requests", ldl(&n_flood)); vt_stat("partial_messages", ldl(&n_partial)); vt_stat("handlers_run", ldl(&rt_handled));
    for (int i = 0; i < 6; i++) { char b[40]; snprintf(b, 40, "requested_from_%d", i); vt_stat(b, ldl(&n_from[i])); }
    vt_sample("shutdown: %lld rounds, %lld never used, %lld clients, %lld requests in flight", ldl(&n_rounds), ldl(&n_unstarted), ldl(&n_clients), ldl(&n_flood));
}
