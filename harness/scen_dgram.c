#include "rt.h"
/* C14: calls and events over a datagram link; malformed datagrams are discarded. */
static struct srv S; static int g_max, g_calls, g_window; static uint32_t g_cap;
#define MAXG 512
struct dc { gracht_client_t* c; int conn, known; uint8_t sub[256]; uint64_t got[MAXG]; int got_svc[MAXG]; int ngot; };
static struct dc D[8]; static int g_nc;
static atomic_llong n_done, n_conn, n_disc, n_malformed, n_kind[8], n_family[3], n_raw_ok, n_events, n_bcast, n_subs, n_stream, n_unsup, n_phases, n_polls, n_empty; static atomic_int g_stop;
#define MAXID 64
static atomic_int id_of[MAXID]; static atomic_int id_on[MAXID]; static atomic_int n_ids; static pthread_mutex_t g_m = PTHREAD_MUTEX_INITIALIZER; static int g_stream_conn = -12345;
static int id_slot(int c) { for (int i = 0; i < ld(&n_ids); i++) if (ld(&id_of[i]) == c) return i; int k = atomic_fetch_add(&n_ids, 1); if (k >= MAXID) vt_internal("ids"); atomic_store(&id_of[k], c); return k; }
static void on_conn(gracht_conn_t c) { pthread_mutex_lock(&g_m); int k = id_slot(c); if (atomic_exchange(&id_on[k], 1)) vt_viol("announce", "connect of client %d announced while it is connected", c); pthread_mutex_unlock(&g_m); inc(&n_conn); app_errno(); }
static void on_disc(gracht_conn_t c) { pthread_mutex_lock(&g_m); int k = id_slot(c); if (!atomic_exchange(&id_on[k], 0)) vt_viol("announce", "disconnect of client %d announced although it is not connected", c); pthread_mutex_unlock(&g_m); inc(&n_disc); app_errno(); }
static int is_on(int c) { pthread_mutex_lock(&g_m); int r = ld(&id_on[id_slot(c)]); pthread_mutex_unlock(&g_m); return r; }
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) {
    (void)ev; VT_CHECK(ok, "event-corrupt", "a datagram event of service %d arrived with other values than sent (%u bytes)", svc, r->n); inc(&n_events);
    for (int i = 0; i < g_nc; i++) if (D[i].c == c) { VT_CHECK(D[i].ngot < MAXG, "event-duplicated", "more events arrived than were sent"); D[i].got_svc[D[i].ngot] = svc; D[i].got[D[i].ngot++] = r->token; }
}
static uint32_t rn(void) { return vt_rand() & 7 ? vt_below(100) : vt_below((uint32_t)g_max - HDR - REQ_FIXED + 1); }
static atomic_llong n_refused, n_departed; static uint64_t g_left[64]; static int g_nleft;
/* the report that a datagram has not reached a server does not end anything */
static int again(int st) { int e = errno; if (st && e == ECONNREFUSED && vt_refused) { vt_refused = 0; inc(&n_refused); return 1; } errno = e; return 0; }
static int retry_all(gracht_client_t* c, struct gracht_message_context** cx, int w) { int st; do st = gracht_client_await_multiple(c, cx, w, GRACHT_AWAIT_ALL); while (again(st)); return st; }
static int retry_one(gracht_client_t* c, struct gracht_message_context* x) { int st; do st = gracht_client_wait_message(c, x, GRACHT_MESSAGE_BLOCK); while (again(st)); return st; }
/* a client subscribes, leaves calls behind and goes; what it is sent from then on is nobody's loss. returns whether it was announced */
static int departs(void) {
    static struct sockaddr_storage gone[64]; static int ngone; struct sockaddr_storage me; socklen_t l = sizeof me; uint8_t b[512], r[512]; uint32_t x; if (ngone == 10) return 0;
    int fd = raw_dgram(&S); memset(&me, 0, sizeof me); if (getsockname(fd, (void*)&me, &l)) vt_internal("getsockname");
    for (int i = 0; i < ngone; i++) if (!memcmp(&gone[i], &me, sizeof me)) { close(fd); return 0; }
    gone[ngone++] = me; inc(&n_departed); int sub = (int)(vt_rand() & 1);
    if (sub) { memset(b, 0, 12); x = 12; memcpy(b + 4, &x, 4); b[10] = 1; b[11] = (uint8_t)(vt_rand() & 1 ? 255 : ev_services[vt_below(NSVC)]); send(fd, b, 12, 0); }
    uint64_t t = tk_new(0); x = raw_msg(b, 7, SVC, A_ECHO, MESSAGE_FLAG_SYNC, t, ARG(0, 20), 30); send(fd, b, x, 0); ssize_t got = recv(fd, r, sizeof r, 0); uint64_t rt; memcpy(&rt, r + HDR, 8); VT_CHECK(got == HDR + REQ_FIXED + 20 && rt == (t ^ RESP), "datagram-response", "a datagram client's call received something else (%zd bytes)", got);
    for (int n = (int)vt_below(4); n > 0; n--) { t = tk_new(0); x = raw_msg(b, 8, SVC, vt_rand() & 1 ? A_ECHO : A_DEFER, MESSAGE_FLAG_SYNC, t, ARG(vt_below(4), vt_below(200)), vt_below(60)); if (send(fd, b, x, 0) == (ssize_t)x) g_left[g_nleft++] = t; }
    close(fd); if (me.ss_family == AF_UNIX && (vt_rand() & 1)) unlink(((struct sockaddr_un*)&me)->sun_path);
    return sub;
}
static void* caller(void* p) {
    struct dc* d = p; int left = g_calls, conn = d->conn, unsup = 0;
    while (left > 0) {
        int w = 1 + (int)vt_below((uint32_t)g_window); if (w > left) w = left; left -= w; struct call k[8]; struct gracht_message_context* cx[8];
        for (int i = 0; i < w; i++) if (call_start(d->c, &k[i], vt_rand() & 1 ? A_DEFER : A_ECHO, rn(), rn(), (int)vt_below(3))) vt_viol("call-failed", "a call could not be sent over a datagram link (errno %d)", errno);
        if (vt_below(4) == 0) {   /* polls, which finds nothing in between */
            int some = 0;
            for (int open = w; open; ) {
                errno = 0; int any = (int)(vt_rand() & 1), st = gracht_client_wait_message(d->c, any ? NULL : &k[vt_below((uint32_t)w)].ctx, 0), e = errno; inc(&n_polls);
                if (!st && any) VT_CHECK(++some <= w + unsup, "poll-of-nothing", "polling a datagram link reported %d messages although at most %d can have arrived", some, w + unsup);
                if (st && (errno = e, again(st))) continue;
                if (st) { VT_CHECK(e == EAGAIN || e == EBUSY || e == EINVAL || e == ENOENT, "wait-failed", "polling a datagram link failed (errno %d)", e); inc(&n_empty); vt_usleep(20); }
                for (int i = 0; i < w; i++) if (!k[i].done) { st = call_collect(d->c, &k[i], &conn); if (st == GRACHT_MESSAGE_COMPLETED) { open--; inc(&n_done); } else VT_CHECK(st == GRACHT_MESSAGE_INPROGRESS, "poll-status", "a call over a datagram link that is polled for has the status %d", st); }
            }
            continue;
        }
        if (vt_rand() & 1) { for (int i = 0; i < w; i++) cx[i] = &k[i].ctx; if (retry_all(d->c, cx, w)) vt_viol("wait-failed", "awaiting calls over a datagram link failed (errno %d)", errno); }
        else for (int i = w - 1; i >= 0; i--) if (retry_one(d->c, &k[i].ctx)) vt_viol("wait-failed", "waiting for a call over a datagram link failed (errno %d)", errno);
        for (int i = 0; i < w; i++) { int st = call_collect(d->c, &k[i], &conn); VT_CHECK(st == GRACHT_MESSAGE_COMPLETED, "wait-early", "a wait over a datagram link returned but the call's status is %d", st); inc(&n_done); }
        if (vt_below(6) == 0) { /* not registered: nothing runs, other calls go on */
            if (cl_async(d->c, vt_rand() & 1 ? 99 : SVC, 77, tk_new(K_FORBIDDEN), 0, vt_below(50))) vt_viol("call-failed", "send"); inc(&n_unsup); unsup++; }
    }
    d->conn = conn; return 0;
}
static void* stream_caller(void* a) { gracht_client_t* c = a; int conn = g_stream_conn; while (vt_bg(&g_stop)) { call_sync(c, A_ECHO, vt_below(200), vt_below(200), &conn); inc(&n_stream); vt_usleep(200); } return 0; }
static void* attacker(void* a) {
    (void)a; int fd = raw_dgram(&S); uint8_t* b = malloc(70000), *r = malloc(70000); uint32_t id = 1;
    for (int k = 0; k < 120 && !ld(&g_stop); k++) {
        int kind = (int)vt_below(8), n = kind == 4 ? 1 : 1 + (int)vt_below(3); inc(&n_kind[kind]);
        for (int i = 0; i < n; i++) {
            uint32_t l = raw_msg(b, id, SVC, vt_rand() & 1 ? A_NOTIFY : A_ECHO, MESSAGE_FLAG_ASYNC, tk_new(K_FORBIDDEN), 0, vt_below(100)), x; uint32_t sz = l; inc(&n_malformed);
            switch (kind) {
            case 0: sz = vt_below(HDR); break;                                    /* shorter than a header */
            case 1: sz = vt_below(l); break;                                      /* cut off: the length says more */
            case 2: sz = l + 1 + vt_below(50); vt_fill(b + l, sz - l, l); break;  /* more bytes than the length says */
            case 3: { static const uint32_t w[] = { 0, 1, HDR - 1, HDR, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0xfffffff0u }; x = w[vt_below(8)]; if (x == sz) x++; memcpy(b + 4, &x, 4); break; }
            case 4: { uint32_t big = (uint32_t)g_max + 1024 + vt_below(12000); l = raw_msg(b, id, SVC, A_NOTIFY, 1, tk_new(K_FORBIDDEN), 0, big - HDR - REQ_FIXED); sz = l; break; }  /* larger than the server receives */
            case 5: { uint32_t big = g_cap + 1 + vt_below(2000); l = raw_msg(b, id, SVC, A_NOTIFY, 1, tk_new(K_FORBIDDEN), 0, big - HDR - REQ_FIXED); sz = l; x = g_cap - vt_below(2); memcpy(b + 4, &x, 4); n = 1; break; } /* the same, claiming to fit exactly */
            case 6: sz = vt_below(600); vt_fill(b, sz, vt_rand()); if (sz >= 8) { x = sz + 1; memcpy(b + 4, &x, 4); } break;
            case 7: { x = HDR + (uint32_t)0; sz = HDR; memset(b, 0, 16); memcpy(b + 4, &x, 4); b[9] = (uint8_t)vt_below(2); b[10] = 1; break; } /* control request without its argument */
            }
            if (send(fd, b, sz, 0) != (ssize_t)sz) { if (errno == EMSGSIZE) continue; }
        }
        /* a valid call of the same client still works, and its answer is all it receives */
        uint64_t t = tk_new(0); uint32_t l = raw_msg(b, ++id, SVC, A_ECHO, MESSAGE_FLAG_SYNC, t, ARG(0, 20), 30); send(fd, b, l, 0);
        ssize_t got = recv(fd, r, 70000, 0); uint32_t rid, rl; uint64_t rt; memcpy(&rid, r, 4); memcpy(&rl, r + 4, 4); memcpy(&rt, r + HDR, 8);
        VT_CHECK(got == HDR + REQ_FIXED + 20 && rl == (uint32_t)got && rid == id && rt == (t ^ RESP) && vt_verify(r + HDR + REQ_FIXED, 20, t ^ RESP), "datagram-response", "a datagram client's valid call after malformed ones (kind %d) received something else (%zd bytes, id %u instead of %u)", kind, got, rid, id);
        inc(&n_raw_ok); vt_progress();
    }
    VT_CHECK(recv(fd, r, 70000, MSG_DONTWAIT) < 0, "datagram-stray", "a datagram client received something it never asked for");
    close(fd); free(b); free(r); return 0;
}
void scen_dgram(void) {
    S.workers = (int)vt_arg("workers", 2); S.max_msg = (int)vt_arg("max", 0); S.stream = 1; S.dgram = 1; S.connected = on_conn; S.disconnected = on_disc; S.selfdriven = (int)vt_arg("self", 0); g_nc = (int)vt_arg("clients", 4); g_calls = (int)vt_arg("calls", 60); g_window = (int)vt_arg("window", 4); int phases = (int)vt_arg("phases", 12);
    g_max = S.max_msg ? S.max_msg : 2048; ev_callback = on_event;
    S.family = (int)vt_arg("family", 0); srv_create(&S); g_cap = (uint32_t)(g_max + 512 - (int)sizeof(struct gracht_message)- (int)S.dlen); inc(&n_family[S.family]); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(2);
    gracht_client_t* sc = cl_connect_unix(S.path, g_max, 0); call_sync(sc, A_ECHO, 1, 1, (g_stream_conn = -1, &g_stream_conn));
    pthread_t th[8], at, st; for (int i = 0; i < g_nc; i++) { D[i].c = cl_connect_dgram(&S, g_max); D[i].conn = -1; ev_register(D[i].c); }
    pthread_create(&st, 0, stream_caller, sc); int withatt = (int)vt_arg("attack", 1); if (withatt) pthread_create(&at, 0, attacker, 0);
    vt_refuse = (int)vt_arg("refuse", (long)vt_below(2));
    for (int i = 0; i < g_nc; i++) pthread_create(&th[i], 0, caller, &D[i]);
    for (int i = 0; i < g_nc; i++) pthread_join(th[i], 0);
    vt_refuse = 0;
    for (int i = 0; i < g_nc; i++) { for (int j = 0; j < i; j++) VT_CHECK(D[i].conn != D[j].conn, "identity", "two datagram clients share one identity"); VT_CHECK(D[i].conn != g_stream_conn, "identity", "a datagram client has the identity of a stream client");
        VT_CHECK(!is_on(D[i].conn), "announce", "a datagram client that never subscribed was announced"); VT_CHECK(ev_send(S.s, D[i].conn, SVC, E_TICK, tk_new(0), 5, 0) == -1, "send-to-unknown", "an event to a datagram client that is not subscribed reports success"); }
    if (withatt) pthread_join(at, 0);
    long long expc = 1, expd = 0;
    for (int ph = 0; ph < phases; ph++) {
        inc(&n_phases); if (vt_below(3) == 0) expc += departs();
        for (int i = 0; i < g_nc; i++) {
            struct dc* d = &D[i]; int ops = (int)vt_below(5);
            for (int k = 0; k < ops; k++) {
                int svc = ev_services[vt_below(NSVC)], on = vt_below(3) != 0; inc(&n_subs); if (vt_below(8) == 0) svc = 255;
                if (cl_subscribe(d->c, (uint8_t)svc, on)) vt_viol("call-failed", "subscribe");
                if (on) { if (!d->known) { d->known = 1; expc++; memset(d->sub, 0, 256); } if (svc == 255) memset(d->sub, 1, 256); else d->sub[svc] = 1; }
                else if (d->known) { if (svc == 255) { d->known = 0; expd++; memset(d->sub, 0, 256); } else d->sub[svc] = 0; }
            }
            call_sync(d->c, A_ECHO, vt_below(30), vt_below(30), &d->conn); d->ngot = 0;
            VT_CHECK(is_on(d->conn) == d->known, "announce", "a datagram client that is %s is announced as %s", d->known ? "subscribed" : "not subscribed", d->known ? "gone" : "connected");
        }
        VT_CHECK(ldl(&n_conn) == expc && ldl(&n_disc) == expd, "announce", "%lld connects and %lld disconnects announced instead of %lld and %lld", ldl(&n_conn), ldl(&n_disc), expc, expd);
        uint64_t tok[24]; int svc[24], tgt[24], n = (int)vt_below(S.family == 2 ? 7 : 20);   /* local sockets queue ten datagrams */
        for (int i = 0; i < n; i++) {
            tok[i] = tk_new(0); svc[i] = ev_services[vt_below(NSVC)]; tgt[i] = vt_below(3) == 0 ? (int)vt_below((uint32_t)g_nc) : -1; uint32_t len = vt_rand() & 7 ? vt_below(60) : vt_below((uint32_t)(g_max > 4000 ? 4000 : g_max) - HDR - REQ_FIXED); unsigned fl = vt_rand() & 1 ? GRACHT_MESSAGE_BLOCK : 0;
            if (tgt[i] < 0) { VT_CHECK(ev_broadcast(S.s, (uint8_t)svc[i], E_TICK, tok[i], len, fl) == 0, "event-send-failed", "a broadcast failed"); }
            else { int stt = ev_send(S.s, D[tgt[i]].conn, (uint8_t)svc[i], E_TICK, tok[i], len, fl); VT_CHECK((stt == 0) == D[tgt[i]].known, "event-send-failed", "an event to a datagram client that is %s reports %d", D[tgt[i]].known ? "subscribed" : "unknown", stt); }
            inc(&n_bcast); vt_progress();
        }
        for (int i = 0; i < g_nc; i++) {
            struct dc* d = &D[i]; int at2 = 0; call_sync(d->c, A_ECHO, 3, 3, &d->conn);   /* everything sent before has arrived */
            for (int k = 0; k < n; k++) {
                int due = tgt[k] >= 0 ? (tgt[k] == i && d->known) : (d->known && d->sub[svc[k]]);
                if (due) { VT_CHECK(at2 < d->ngot && d->got[at2] == tok[k] && d->got_svc[at2] == svc[k], "event-lost", "datagram client %d did not receive an event of service %d it is due, in order", i, svc[k]); at2++; }
            }
            VT_CHECK(at2 == d->ngot, "event-misdelivered", "datagram client %d received %d events but only %d were due to it", i, d->ngot, at2);
        }
    }
    for (int i = 0; i < g_nc; i++) if (D[i].known) { cl_subscribe(D[i].c, 255, 0); call_sync(D[i].c, A_ECHO, 0, 0, &D[i].conn); expd++; VT_CHECK(ev_send(S.s, D[i].conn, SVC, E_TICK, tk_new(0), 3, 0) == -1, "send-to-unknown", "an event to an unsubscribed datagram client reports success"); }
    VT_CHECK(ldl(&n_conn) == expc && ldl(&n_disc) == expd, "announce", "%lld connects and %lld disconnects announced instead of %lld and %lld", ldl(&n_conn), ldl(&n_disc), expc, expd);
    for (int i = 0; i < g_nleft; i++) while (!atomic_load(&tk_resp[tk_idx(g_left[i])])) vt_usleep(100);   /* a datagram that arrived is handled, whether its sender is still there or not */
    atomic_store(&g_stop, 1); pthread_join(st, 0); rt_responders_stop();
    for (int i = 0; i < g_nc; i++) gracht_client_shutdown(D[i].c);
    gracht_client_shutdown(sc); srv_stop(&S);
    vt_stat("datagram_calls", ldl(&n_done)); vt_stat("refusals_survived", ldl(&n_refused)); vt_stat("departed", ldl(&n_departed)); vt_stat("requests_of_departed", g_nleft); vt_stat("polls", ldl(&n_polls)); vt_stat("empty_polls", ldl(&n_empty)); vt_stat("malformed_datagrams", ldl(&n_malformed)); vt_stat("raw_calls", ldl(&n_raw_ok)); vt_stat("events_received", ldl(&n_events)); vt_stat("events_sent", ldl(&n_bcast)); vt_stat("subscription_changes", ldl(&n_subs)); vt_stat("announced", ldl(&n_conn) + ldl(&n_disc)); vt_stat("stream_calls", ldl(&n_stream)); vt_stat("unsupported", ldl(&n_unsup)); vt_stat("phases", ldl(&n_phases));
    for (int i = 0; i < 3; i++) { char b[32]; snprintf(b, 32, "family_%d", i); vt_stat(b, ldl(&n_family[i])); }
    for (int i = 0; i < 8; i++) { char b[32]; snprintf(b, 32, "malformed_kind_%d", i); vt_stat(b, ldl(&n_kind[i])); }
    vt_sample("dgram: %lld calls by %d clients, %lld malformed datagrams discarded, %lld events delivered, %lld connects", ldl(&n_done), g_nc, ldl(&n_malformed), ldl(&n_events), ldl(&n_conn));
}
