#include "rt.h"
/* C18, C14, C04, C09, C03: one server behind several links of different kinds; every client is served, told apart and announced whichever link it uses, and trouble on one link leaves the others alone. */
#define NC 10
#define MAXG 64
struct lc { gracht_client_t* c; int link, conn, known, ngot; uint8_t sub[256]; uint64_t got[MAXG]; int got_svc[MAXG]; };
static struct lc C[NC]; static int g_nc, g_nl, g_calls, g_max; static struct srv S, L[4]; static int g_dg[4];
static atomic_llong n_calls, n_notify, n_conn, n_disc, n_attacks, n_events, n_sent, n_moves, n_subs, n_kind[6], n_phases; static atomic_int g_stop;
#define MAXID 4096
static int id_of[MAXID], id_on[MAXID], n_ids; static pthread_mutex_t g_m = PTHREAD_MUTEX_INITIALIZER;
static int slot(int c) { for (int i = n_ids - 1; i >= 0; i--) if (id_of[i] == c) return i; if (n_ids >= MAXID) vt_internal("ids"); id_of[n_ids] = c; return n_ids++; }
static void on_conn(gracht_conn_t c) { pthread_mutex_lock(&g_m); int k = slot(c); if (id_on[k]) vt_viol("announce", "connect of client %d announced while it is connected", c); id_on[k] = 1; pthread_mutex_unlock(&g_m); inc(&n_conn); vt_progress(); app_errno(); }
static void on_disc(gracht_conn_t c) { pthread_mutex_lock(&g_m); int k = slot(c); if (!id_on[k]) vt_viol("announce", "disconnect of client %d announced although it is not connected", c); id_on[k] = 0; pthread_mutex_unlock(&g_m); inc(&n_disc); vt_progress(); app_errno(); }
static int is_on(int c) { pthread_mutex_lock(&g_m); int r = id_on[slot(c)]; pthread_mutex_unlock(&g_m); return r; }
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) {
    (void)ev; VT_CHECK(ok, "event-corrupt", "an event of service %d arrived with other values than sent (%u bytes)", svc, r->n); inc(&n_events);
    for (int i = 0; i < g_nc; i++) if (C[i].c == c) { if (C[i].ngot >= MAXG) vt_viol("event-duplicated", "more events arrived than were sent"); C[i].got_svc[C[i].ngot] = svc; C[i].got[C[i].ngot++] = r->token; }
}
static uint32_t rn(void) { return vt_rand() & 7 ? vt_below(100) : vt_below((uint32_t)g_max - HDR - REQ_FIXED + 1); }
static void enter(struct lc* k, int link) {
    k->link = link; k->conn = -1; k->known = !g_dg[link]; memset(k->sub, k->known, sizeof k->sub); k->ngot = 0;
    k->c = g_dg[link] ? cl_connect_dgram(&L[link], g_max) : cl_connect_unix(L[link].path, g_max, g_max * 10 + 65536); ev_register(k->c);
    call_sync(k->c, A_ECHO, rn(), rn(), &k->conn);
    for (int i = 0; i < g_nc; i++) if (&C[i] != k && C[i].c) VT_CHECK(C[i].conn != k->conn, "identity", "two connected clients of links %d and %d share the identity %d", C[i].link, link, k->conn);
    VT_CHECK(is_on(k->conn) == k->known, "announce", "a client of a %s link is announced as %s", g_dg[link] ? "datagram" : "stream", k->known ? "gone" : "connected");
}
static long long g_expc, g_expd;
static int announced(void* a) { (void)a; return ldl(&n_conn) == g_expc && ldl(&n_disc) == g_expd; }
static void expect_announced(const char* when) { if (!vt_settle(announced, 0)) vt_viol("announce", "%lld connects and %lld disconnects announced instead of %lld and %lld (%s)", ldl(&n_conn), ldl(&n_disc), g_expc, g_expd, when); }
static void leave(struct lc* k) {
    if (g_dg[k->link]) { if (k->known) { cl_subscribe(k->c, 255, 0); call_sync(k->c, A_ECHO, 0, 0, &k->conn); g_expd++; } } else g_expd++;
    gracht_client_shutdown(k->c); k->c = 0; expect_announced("after a client left");
}
static void* caller(void* p) {
    struct lc* k = p; int left = g_calls, conn = k->conn; struct call q[8]; struct gracht_message_context* cx[8]; uint64_t fire[64]; int nf = 0;
    while (left > 0) {
        int w = 1 + (int)vt_below(6); if (w > left) w = left; left -= w;
        for (int i = 0; i < w; i++) { if (call_start(k->c, &q[i], vt_rand() & 1 ? A_DEFER : A_ECHO, rn(), rn(), (int)vt_below(3))) vt_viol("call-failed", "a call could not be sent (errno %d)", errno); cx[i] = &q[i].ctx; }
        if (nf < 64 && vt_below(3) == 0) { fire[nf] = tk_new(K_NORMAL); if (cl_async(k->c, SVC, A_NOTIFY, fire[nf++], 0, rn())) vt_viol("call-failed", "a message could not be sent (errno %d)", errno); inc(&n_notify); }
        if (gracht_client_await_multiple(k->c, cx, w, GRACHT_AWAIT_ALL)) vt_viol("wait-failed", "awaiting calls failed (errno %d)", errno);
        for (int i = 0; i < w; i++) { int st = call_collect(k->c, &q[i], &conn); VT_CHECK(st == GRACHT_MESSAGE_COMPLETED, "wait-early", "a wait returned but the call's status is %d", st); inc(&n_calls); }
        if (vt_below(8) == 0 && cl_async(k->c, vt_rand() & 1 ? 99 : SVC, 77, tk_new(K_FORBIDDEN), 0, vt_below(50))) vt_viol("call-failed", "send");
    }
    call_sync(k->c, A_ECHO, 1, 1, &conn);
    if (S.workers < 2) for (int i = 0; i < nf; i++) VT_CHECK(tk_ran(fire[i]) == 1, "lost", "a message was executed %d times when a later call of the same client was answered", tk_ran(fire[i]));
    k->conn = conn; return 0;
}
static void* attacker(void* p) {   /* garbage on one link; stream connections are torn down for it, datagrams discarded */
    int link = *(int*)p; uint8_t* b = malloc(70000); long long* opened = calloc(1, sizeof *opened);
    for (int i = 0; i < 25 && !ld(&g_stop); i++) {
        int kind = (int)vt_below(3); uint32_t n = HDR + vt_below(200), x; vt_fill(b, n, vt_rand()); inc(&n_attacks); inc(&n_kind[kind + (g_dg[link] ? 0 : 3)]);
        if (kind == 0) x = vt_below(HDR); else if (kind == 1) x = 0x7fffffffu + vt_below(1000); else x = (uint32_t)g_max + 1024 + vt_below(1000);
        memcpy(b + 4, &x, 4);
        if (g_dg[link]) { int fd = raw_dgram(&L[link]); int many = 1 + (int)vt_below(3); while (many--) { if (send(fd, b, kind ? n : vt_below(n), 0) < 0) break; } close(fd); }
        else { int fd = raw_connect_unix(L[link].path); if (fd < 0) vt_viol("connect", "a client could not connect to a running server (errno %d)", errno); ++*opened; if (raw_write(fd, b, n)) {} if (vt_rand() & 1) { char c; while (recv(fd, &c, 1, 0) > 0) {} } close(fd); }
        vt_progress();
    }
    free(b); return opened;
}
void scen_links(void) {
    S.workers = (int)vt_arg("workers", 2); S.max_msg = (int)vt_arg("max", 0); S.selfdriven = (int)vt_arg("self", 0); S.connected = on_conn; S.disconnected = on_disc; ev_callback = on_event;
    g_nl = (int)vt_arg("links", 4); int mix = (int)vt_arg("mix", 0), phases = (int)vt_arg("phases", 4); g_nc = (int)vt_arg("clients", 6); g_calls = (int)vt_arg("calls", 20); g_max = S.max_msg ? S.max_msg : 2048;
    srv_create(&S); int at = -1, small = 0;
    for (int i = 0; i < g_nl; i++) {
        int k = mix == 1 ? (int)vt_below(3) : mix == 2 ? 3 + (int)vt_below(3) : (int)vt_below(6); L[i].s = S.s; L[i].max_msg = S.max_msg; inc(&n_kind[k]);
        g_dg[i] = k >= 3; if (g_dg[i]) { L[i].family = k - 3; srv_link_dgram(&L[i]); if (L[i].family == 2) small = 1; } else { srv_link_stream(&L[i], k); if (k == 0) at = i; else if (at < 0) at = i; }
    }
    for (int i = 0; i < 6; i++) atomic_store(&n_kind[i], 0);
    int last = at >= 0 ? at : g_nl - 1; S.stream = !g_dg[last]; S.dgram = g_dg[last]; memcpy(S.path, L[last].path, sizeof S.path); S.daddr = L[last].daddr; S.dlen = L[last].dlen; S.family = L[last].family;
    gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(2);
    for (int i = 0; i < g_nc; i++) { int l = i < g_nl ? i : (int)vt_below((uint32_t)g_nl); enter(&C[i], l); g_expc += !g_dg[l]; }
    expect_announced("after all clients connected");
    for (int ph = 0; ph < phases; ph++) {
        inc(&n_phases); pthread_t th[NC], av; int victim = (int)vt_below((uint32_t)g_nl), att = vt_rand() & 1; long long opened = 0; atomic_store(&g_stop, 0);
        if (att) pthread_create(&av, 0, attacker, &victim);
        for (int i = 0; i < g_nc; i++) pthread_create(&th[i], 0, caller, &C[i]);
        for (int i = 0; i < g_nc; i++) pthread_join(th[i], 0);
        if (att) { void* o; atomic_store(&g_stop, 1); pthread_join(av, &o); opened = *(long long*)o; free(o); g_expc += opened; g_expd += opened; }
        expect_announced("after calls and attacks");
        for (int i = 0; i < g_nc; i++) for (int j = 0; j < i; j++) VT_CHECK(C[i].conn != C[j].conn, "identity", "two clients share the identity %d", C[i].conn);
        for (int i = 0; i < g_nc; i++) {
            struct lc* k = &C[i]; int ops = (int)vt_below(5);
            for (int o = 0; o < ops; o++) {
                int svc = ev_services[vt_below(NSVC)], on = vt_below(3) != 0; inc(&n_subs); if (vt_below(6) == 0) svc = 255;
                if (cl_subscribe(k->c, (uint8_t)svc, on)) vt_viol("call-failed", "subscribe");
                if (on) { if (!k->known) { k->known = 1; g_expc++; memset(k->sub, 0, 256); } if (svc == 255) memset(k->sub, 1, 256); else k->sub[svc] = 1; }
                else if (k->known) { if (svc == 255) { if (g_dg[k->link]) { k->known = 0; g_expd++; } memset(k->sub, 0, 256); } else k->sub[svc] = 0; }
            }
            call_sync(k->c, A_ECHO, vt_below(30), vt_below(30), &k->conn); k->ngot = 0;
            VT_CHECK(is_on(k->conn) == k->known, "announce", "a client that is %s is announced as %s", k->known ? "connected or subscribed" : "not subscribed", k->known ? "gone" : "connected");
        }
        VT_CHECK(announced(0), "announce", "%lld connects and %lld disconnects announced instead of %lld and %lld", ldl(&n_conn), ldl(&n_disc), g_expc, g_expd);
        uint64_t tok[24]; int svc[24], tgt[24], n = (int)vt_below(small ? 7 : 20);
        for (int i = 0; i < n; i++) {
            tok[i] = tk_new(0); svc[i] = ev_services[vt_below(NSVC)]; tgt[i] = vt_below(3) == 0 ? (int)vt_below((uint32_t)g_nc) : -1; uint32_t len = vt_rand() & 7 ? vt_below(60) : vt_below((uint32_t)(g_max > 4000 ? 4000 : g_max) - HDR - REQ_FIXED);
            if (tgt[i] < 0) VT_CHECK(ev_broadcast(S.s, (uint8_t)svc[i], E_TICK, tok[i], len, GRACHT_MESSAGE_BLOCK) == 0, "event-send-failed", "a broadcast failed");
            else { int st = ev_send(S.s, C[tgt[i]].conn, (uint8_t)svc[i], E_TICK, tok[i], len, GRACHT_MESSAGE_BLOCK); VT_CHECK((st == 0) == C[tgt[i]].known, "event-send-failed", "an event to a client of a %s link that is %s reports %d", g_dg[C[tgt[i]].link] ? "datagram" : "stream", C[tgt[i]].known ? "connected" : "unknown", st); }
            inc(&n_sent); vt_progress();
        }
        for (int i = 0; i < g_nc; i++) {
            struct lc* k = &C[i]; int a2 = 0; call_sync(k->c, A_ECHO, 3, 3, &k->conn);
            for (int e = 0; e < n; e++) if (tgt[e] >= 0 ? (tgt[e] == i && k->known) : (k->known && k->sub[svc[e]])) { VT_CHECK(a2 < k->ngot && k->got[a2] == tok[e] && k->got_svc[a2] == svc[e], "event-lost", "a client of a %s link did not receive an event of service %d it is due, in order", g_dg[k->link] ? "datagram" : "stream", svc[e]); a2++; }
            VT_CHECK(a2 == k->ngot, "event-misdelivered", "a client received %d events but only %d were due to it", k->ngot, a2);
        }
        for (int m = (int)vt_below(4); m > 0; m--) { struct lc* k = &C[vt_below((uint32_t)g_nc)]; leave(k); int l = (int)vt_below((uint32_t)g_nl); g_expc += !g_dg[l]; enter(k, l); expect_announced("after a client connected"); inc(&n_moves); }
    }
    rt_responders_stop();
    for (int i = 0; i < g_nc; i++) leave(&C[i]);
    srv_stop(&S); for (int i = 0; i < g_nl; i++) { if (!g_dg[i]) unlink(L[i].path); else if (L[i].family == 2) unlink(((struct sockaddr_un*)&L[i].daddr)->sun_path); }
    vt_stat("calls_completed", ldl(&n_calls)); vt_stat("one_way_messages", ldl(&n_notify)); vt_stat("attacks", ldl(&n_attacks)); vt_stat("events_received", ldl(&n_events)); vt_stat("events_sent", ldl(&n_sent)); vt_stat("clients_moved", ldl(&n_moves)); vt_stat("subscription_changes", ldl(&n_subs)); vt_stat("announced", ldl(&n_conn) + ldl(&n_disc)); vt_stat("link_phases", ldl(&n_phases) * g_nl);
    vt_sample("links: %d links (%d datagram), %d clients: %lld calls, %lld attacks, %lld of %lld events delivered, %lld clients moved", g_nl, g_dg[0] + g_dg[1] + g_dg[2] + g_dg[3], g_nc, ldl(&n_calls), ldl(&n_attacks), ldl(&n_events), ldl(&n_sent), ldl(&n_moves));
}
