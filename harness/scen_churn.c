#include "rt.h"
/* C09: clients come and go in every way; announcements are exact, nothing is kept. */
static struct srv S; static atomic_int st_conn[4096], st_ever[4096]; static atomic_llong n_conn, n_disc, n_connected, n_how[8], n_stay, n_evs, n_evfail, n_unverified; static atomic_int g_stop, g_ready; static int g_outstanding, g_single;
static void on_conn(gracht_conn_t c) { VT_CHECK(c >= 0 && c < 4096, "announce", "connect announced for handle %d", c); VT_CHECK(!atomic_exchange(&st_conn[c], 1), "announce", "connect of client %d announced while it is connected", c); atomic_store(&st_ever[c], 1); inc(&n_conn); vt_progress(); app_errno(); }
static void on_disc(gracht_conn_t c) { VT_CHECK(c >= 0 && c < 4096, "announce", "disconnect announced for handle %d", c); VT_CHECK(atomic_exchange(&st_conn[c], 0), "announce", "disconnect of client %d announced although it is not connected", c); inc(&n_disc); vt_progress(); app_errno(); }
static void on_handler(struct gracht_message* m, int a, struct req* r) { (void)a; (void)r; int c = m->client; VT_CHECK(c >= 0 && c < 4096 && atomic_load(&st_ever[c]), "announce", "a request of client %d ran before its connect was announced", c); if (g_single) VT_CHECK(atomic_load(&st_conn[c]), "announce", "a request of client %d ran while it is not announced as connected", c); }
static void* stayer(void* a) { (void)a; gracht_client_t* c = cl_connect_unix(S.path, 2048, 64 * 1024); int conn = -1; ev_register(c); inc(&n_connected); call_sync(c, A_ECHO, 0, 0, &conn); atomic_fetch_add(&g_ready, 1);
    while (vt_bg(&g_stop)) { call_sync(c, vt_rand() & 1 ? A_ECHO : A_DEFER, vt_below(100), vt_below(100), &conn); inc(&n_stay); } gracht_client_shutdown(c); return 0; }
static void* events(void* a) { (void)a; while (vt_bg(&g_stop)) { int st; if (vt_rand() & 1) st = ev_broadcast(S.s, SVC, E_TICK, tk_new(0), vt_below(300), 0); else st = ev_send(S.s, 3 + (int)vt_below(40), SVC, E_TICK, tk_new(0), vt_below(300), 0); inc(&n_evs); if (st) inc(&n_evfail); vt_usleep(vt_below(200)); } return 0; }
static int g_n;
static void* churner(void* a) {
    (void)a; uint8_t* buf = malloc(65536);
    for (int i = 0; i < g_n; i++) {
        int how = (int)vt_below(g_outstanding ? 8 : 3); inc(&n_how[how]); vt_progress();
        if (how <= 1) { /* library client, every call answered, then a clean shutdown */
            gracht_client_t* c = cl_connect_unix(S.path, 2048, 64 * 1024); int conn = -1; inc(&n_connected); ev_register(c); int k = (int)vt_below(5);
            if (!g_outstanding || how == 0) for (int j = 0; j < k; j++) call_sync(c, vt_rand() & 1 ? A_ECHO : A_DEFER, vt_below(100), vt_below(100), &conn);
            else for (int j = 0; j < k; j++) { struct gracht_message_context x; if (cl_call(c, &x, SVC, vt_rand() & 1 ? A_ECHO : A_DEFER, tk_new(0), ARG(vt_below(3), vt_below(100)), 10)) vt_viol("call-failed", "send failed %d", errno); if (vt_rand() & 1) gracht_client_wait_message(c, NULL, 0); inc(&n_unverified); }
            gracht_client_shutdown(c); continue;
        }
        int fd = raw_connect_unix(S.path); if (fd < 0) vt_viol("connect", "the server does not accept connections any more (errno %d)", errno); inc(&n_connected); uint32_t l = 0; int k = (int)vt_below(6);
        if (how == 2) { if (vt_rand() & 1) vt_usleep(vt_below(300)); close(fd); continue; }  /* connects and leaves */
        for (int j = 0; j < k; j++) { l = raw_msg(buf, (uint32_t)j, SVC, vt_rand() & 1 ? A_ECHO : A_DEFER, MESSAGE_FLAG_SYNC, tk_new(0), ARG(vt_below(3), vt_below(200)), vt_below(60)); if (raw_write(fd, buf, l)) break; inc(&n_unverified); }
        switch (how) {
        case 3: break;                                                                       /* answers unread: reset */
        case 4: shutdown(fd, SHUT_WR); vt_usleep(vt_below(500)); break;                       /* half closed */
        case 5: l = raw_msg(buf, 0, SVC, A_NOTIFY, 1, tk_new(K_FORBIDDEN), 0, 50); raw_write(fd, buf, 1 + vt_below(l - 1)); break;  /* in the middle of a message */
        case 6: shutdown(fd, SHUT_RD); vt_usleep(vt_below(300)); break;                       /* refuses what is sent to it */
        case 7: { char b[512]; while (recv(fd, b, sizeof b, MSG_DONTWAIT) > 0) {} shutdown(fd, SHUT_RDWR); break; }
        }
        close(fd);
    }
    free(buf); return 0;
}
static int balanced(void* a) { (void)a; return ldl(&n_conn) == ldl(&n_connected) && ldl(&n_disc) == ldl(&n_conn); }
static int one_gone(void* a) { return !atomic_load(&st_conn[*(int*)a]); }
static int fds_back(void* a) { return vt_count_fds() <= *(int*)a; }
static int ran(void* a) { return tk_ran(*(uint64_t*)a); }
static int answered(void* a) { return atomic_load(&tk_resp[tk_idx(*(uint64_t*)a)]); }
void scen_churn(void) {
    S.workers = (int)vt_arg("workers", 2); S.stream = 1; S.connected = on_conn; S.disconnected = on_disc; S.selfdriven = (int)vt_arg("self", 0); g_n = (int)vt_arg("n", 60); g_outstanding = (int)vt_arg("outstanding", 1); g_single = S.workers <= 1; rt_on_handler = on_handler;
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(2);
    { gracht_client_t* w = cl_connect_unix(S.path, 2048, 0); int cn = -1; inc(&n_connected); call_sync(w, A_ECHO, 1, 1, &cn); gracht_client_shutdown(w); vt_settle(balanced, 0); }
    int fds = vt_count_fds(), ns = (int)vt_arg("stayers", 2), nc = (int)vt_arg("churners", 4); pthread_t s[4], c[8], e[2];
    for (int i = 0; i < ns; i++) pthread_create(&s[i], 0, stayer, 0);
    while (ld(&g_ready) < ns) vt_usleep(200);
    for (int i = 0; i < 2; i++) pthread_create(&e[i], 0, events, 0);
    for (int i = 0; i < nc; i++) pthread_create(&c[i], 0, churner, 0);
    for (int i = 0; i < nc; i++) pthread_join(c[i], 0);
    atomic_store(&g_stop, 1);
    for (int i = 0; i < ns; i++) pthread_join(s[i], 0);
    for (int i = 0; i < 2; i++) pthread_join(e[i], 0);
    if (!vt_settle(balanced, 0)) vt_viol("announce", "%lld connections were made, %lld connects and %lld disconnects were announced", ldl(&n_connected), ldl(&n_conn), ldl(&n_disc));
    if (!vt_settle(fds_back, &fds)) vt_viol("descriptor-leak", "%d descriptors are open after every client left (were %d before)", vt_count_fds(), fds);
    /* nobody is left: addressing anybody fails and harms nothing, a deferred response fails */
    for (int i = 3; i < 60; i++) if (atomic_load(&st_ever[i])) VT_CHECK(ev_send(S.s, i, SVC, E_TICK, tk_new(0), 10, GRACHT_MESSAGE_BLOCK) == -1, "send-to-gone", "an event to a departed client reports success");
    VT_CHECK(ev_broadcast(S.s, SVC, E_TICK, tk_new(0), 10, 0) == 0, "broadcast", "broadcasting to nobody fails");
    rt_hold(1); uint64_t dt = tk_new(0);
    { gracht_client_t* w = cl_connect_unix(S.path, 2048, 0); int cn = -1; inc(&n_connected); call_sync(w, A_ECHO, 1, 1, &cn); struct gracht_message_context x; cl_call(w, &x, SVC, A_DEFER, dt, ARG(0, 10), 10); if (!vt_settle(ran, &dt)) vt_viol("lost-request", "a request never ran"); gracht_client_shutdown(w); if (!vt_settle(one_gone, &cn)) vt_viol("announce", "a departed client is never announced as disconnected"); }
    rt_hold(0); if (!vt_settle(answered, &dt)) vt_internal("not answered"); rt_responders_stop();
    VT_CHECK(atomic_load(&tk_resp[tk_idx(dt)]) == 2, "respond-to-gone", "responding to a departed client reports success");
    { gracht_client_t* w = cl_connect_unix(S.path, 2048, 0); int cn = -1; inc(&n_connected); call_sync(w, A_ECHO, 100, 100, &cn); gracht_client_shutdown(w); }
    if (!vt_settle(balanced, 0)) vt_viol("announce", "%lld connections were made, %lld connects and %lld disconnects were announced", ldl(&n_connected), ldl(&n_conn), ldl(&n_disc));
    srv_stop(&S);
    vt_stat("connections", ldl(&n_connected)); vt_stat("connects_announced", ldl(&n_conn)); vt_stat("disconnects_announced", ldl(&n_disc)); vt_stat("stayer_calls", ldl(&n_stay)); vt_stat("events_during_churn", ldl(&n_evs)); vt_stat("events_refused", ldl(&n_evfail)); vt_stat("responses_refused", ldl(&rt_respond_fail)); vt_stat("calls_left_outstanding", ldl(&n_unverified));
    for (int i = 0; i < 8; i++) { char b[32]; snprintf(b, 32, "leave_kind_%d", i); vt_stat(b, ldl(&n_how[i])); }
    vt_sample("churn: %lld connections, %lld disconnects announced, %lld responses and %lld events to departed clients refused", ldl(&n_connected), ldl(&n_disc), ldl(&rt_respond_fail), ldl(&n_evfail));
}
