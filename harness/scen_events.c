#include "rt.h"
/* C04: events reach exactly the subscribed clients, once, in order. */
static struct srv S;
#define MAXEV 4096
struct rec { uint64_t token; int svc, ev; };
struct ec { gracht_client_t* c; int conn; uint8_t sub[NSVC]; struct rec* got; int ngot; int sentinel; uint64_t sent_tok; };
static struct ec E[8]; static int g_nc;
static struct ec* find(gracht_client_t* c) { for (int i = 0; i < g_nc; i++) if (E[i].c == c) return &E[i]; vt_internal("unknown client"); }
static atomic_llong n_ev_sent, n_ev_recv, n_subs, n_phases, n_targeted, n_joins;
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) {
    struct ec* e = find(c); inc(&n_ev_recv);
    VT_CHECK(ok, "event-corrupt", "an event of service %d arrived with other values than sent (%u bytes)", svc, r->n);
    VT_CHECK(e->ngot < MAXEV, "event-duplicated", "a client received more events than were ever sent");
    e->got[e->ngot++] = (struct rec){ r->token, svc, ev };
    if (r->token == e->sent_tok) e->sentinel = 1;
}
/* one sender's log: what it sent in order */
struct sent { uint64_t token; int svc_i; int target; /* -1 broadcast */ };
struct sender { int no, n; unsigned flags; struct sent* log; uint32_t maxn; };
static void* sender_main(void* p) {
    struct sender* s = p;
    for (int i = 0; i < s->n; i++) {
        uint64_t t = tk_new(K_NORMAL); int si = (int)vt_below(NSVC), tg = (vt_rand() & 3) == 0 ? (int)vt_below((uint32_t)g_nc) : -1;
        uint32_t n = vt_rand() & 7 ? vt_below(60) : vt_below(s->maxn + 1);
        s->log[i] = (struct sent){ t, si, tg };
        int st = tg < 0 ? ev_broadcast(S.s, ev_services[si], E_TICK, t, n, s->flags) : ev_send(S.s, E[tg].conn, ev_services[si], E_TICK, t, n, s->flags);
        VT_CHECK(st == 0, "event-send-failed", "sending an event to connected clients failed (%d)", st);
        inc(&n_ev_sent); if (tg >= 0) inc(&n_targeted); vt_progress();
        if ((vt_rand() & 7) == 0) vt_usleep(vt_below(100));
    }
    return 0;
}
static atomic_int g_tog_stop; static int g_tog_client, g_tog_svc; static atomic_llong n_toggles;
static void* toggler(void* a) { (void)a; int on = E[g_tog_client].sub[g_tog_svc]; while (vt_bg(&g_tog_stop)) { on = !on; cl_subscribe(E[g_tog_client].c, ev_services[g_tog_svc], on); inc(&n_toggles); vt_usleep(50 + vt_below(200)); } E[g_tog_client].sub[g_tog_svc] = (uint8_t)on; return 0; }
static void* reader(void* p) { struct ec* e = p; while (!e->sentinel) if (gracht_client_wait_message(e->c, NULL, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting for events failed on a live connection (errno %d)", errno); return 0; }
static void join(int i, int max) {
    E[i].c = cl_connect_unix(S.path, max, max * 8); ev_register(E[i].c); E[i].conn = -1; E[i].ngot = 0; E[i].sent_tok = 0; E[i].sentinel = 0;
    memset(E[i].sub, 1, NSVC); call_sync(E[i].c, A_ECHO, 0, 0, &E[i].conn); inc(&n_joins);
}
/* clients that get what everybody gets, but can not be reached: they have stopped receiving, or are gone without the server knowing yet */
static atomic_llong n_deaf; static int g_deaf[4], g_ndeaf;
static void deaf_open(void) {
    uint8_t b[256]; uint32_t l = raw_msg(b, 5, SVC, A_ECHO, MESSAGE_FLAG_SYNC, tk_new(K_NORMAL), ARG(0, 4), 10); int fd = raw_connect_unix(S.path); if (fd < 0) vt_viol("connect", "a client could not connect (errno %d)", errno);
    if (raw_write(fd, b, l) || raw_read_msg(fd, b, sizeof b, &l) != 1) vt_viol("call-failed", "a client's first call is not answered"); inc(&n_deaf);
    if (!strncmp(S.path, "tcp", 3)) close(fd); else { shutdown(fd, SHUT_RD); g_deaf[g_ndeaf++] = fd; }
}
void scen_events(void) {
    S.workers = (int)vt_arg("workers", 2); S.max_msg = (int)vt_arg("max", 0); S.stream = 1; int max = S.max_msg ? S.max_msg : 2048; g_nc = (int)vt_arg("clients", 4); int phases = (int)vt_arg("phases", 15), ns = (int)vt_arg("senders", 3);
    ev_callback = on_event;
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S);
    for (int i = 0; i < g_nc; i++) { E[i].got = malloc(sizeof(struct rec) * MAXEV); join(i, max); }
    for (int ph = 0; ph < phases; ph++) {
        inc(&n_phases);
        if (ph) for (int i = 0; i < g_nc; i++) {
            if (vt_below(5) == 0) { gracht_client_shutdown(E[i].c); E[i].c = 0; join(i, max); continue; }
            int ops = (int)vt_below(8);
            for (int k = 0; k < ops; k++) {
                int si = (int)vt_below(NSVC), on = (int)(vt_rand() & 1); inc(&n_subs);
                if (vt_below(12) == 0) { cl_subscribe(E[i].c, 255, on); memset(E[i].sub, on, NSVC); }
                else { cl_subscribe(E[i].c, ev_services[si], on); E[i].sub[si] = (uint8_t)on; }
            }
            call_sync(E[i].c, A_ECHO, 0, 0, &E[i].conn);      /* everything before it has taken effect */
        }
        for (int i = 0; i < g_nc; i++) { E[i].ngot = 0; E[i].sentinel = 0; E[i].sent_tok = 0; for (int j = 0; j < i; j++) VT_CHECK(E[i].conn != E[j].conn, "identity", "two connected clients share an identity"); }
        struct sender sd[8]; pthread_t th[8], rd[8], tg; int concurrent = (int)(vt_rand() & 1), toggle = concurrent && (vt_rand() & 1); uint8_t before[8][NSVC];
        g_tog_client = (int)vt_below((uint32_t)g_nc); g_tog_svc = (int)vt_below(NSVC);
        for (int i = 0; i < g_nc; i++) { memcpy(before[i], E[i].sub, NSVC); E[i].sent_tok = tk_new(K_NORMAL); }
        if (vt_below(3) == 0) for (int n = 1 + (int)vt_below(4); n > 0; n--) deaf_open();
        if (concurrent) for (int i = 0; i < g_nc; i++) pthread_create(&rd[i], 0, reader, &E[i]);
        if (toggle) { atomic_store(&g_tog_stop, 0); pthread_create(&tg, 0, toggler, 0); }
        for (int k = 0; k < ns; k++) { sd[k].no = k; sd[k].n = (concurrent ? 100 : 60) / ns; sd[k].flags = concurrent ? GRACHT_MESSAGE_BLOCK : (vt_rand() & 1 ? GRACHT_MESSAGE_BLOCK : 0); sd[k].maxn = concurrent ? (uint32_t)(max - HDR - REQ_FIXED) : 200; sd[k].log = malloc(sizeof(struct sent) * (size_t)(sd[k].n + 1)); pthread_create(&th[k], 0, sender_main, &sd[k]); }
        for (int k = 0; k < ns; k++) pthread_join(th[k], 0);
        if (toggle) { atomic_store(&g_tog_stop, 1); pthread_join(tg, 0); }
        for (int i = 0; i < g_nc; i++) if (ev_send(S.s, E[i].conn, SVC, E_TICK2, E[i].sent_tok, 0, GRACHT_MESSAGE_BLOCK)) vt_viol("event-send-failed", "an event addressed to a connected client could not be sent (errno %d)", errno);
        for (int i = 0; i < g_nc; i++) { if (concurrent) pthread_join(rd[i], 0); else reader(&E[i]); }
        while (g_ndeaf) close(g_deaf[--g_ndeaf]);
        /* exact comparison per client */
        for (int i = 0; i < g_nc; i++) {
            int pos[8] = { 0 };
            VT_CHECK(E[i].got[E[i].ngot - 1].token == E[i].sent_tok, "order", "events arrived out of order");
            for (int g = 0; g < E[i].ngot - 1; g++) {
                struct rec* r = &E[i].got[g]; int k, at = -1;
                for (k = 0; k < ns && at < 0; k++) for (int x = 0; x < sd[k].n; x++) if (sd[k].log[x].token == r->token) { at = x; break; }
                VT_CHECK(at >= 0, "event-unknown", "a client received an event that was not sent in this phase (service %d): duplicated or stale", r->svc);
                k--;
                struct sent* s = &sd[k].log[at]; int maybe = toggle && i == g_tog_client && s->svc_i == g_tog_svc && s->target < 0;
                VT_CHECK(r->svc == ev_services[s->svc_i] && r->ev == E_TICK, "event-corrupt", "an event of service %d was delivered as service %d event %d", ev_services[s->svc_i], r->svc, r->ev);
                VT_CHECK(at >= pos[k], "event-order", "client %d received events of one sender out of order or twice (%d after %d)", i, at, pos[k] - 1);
                for (int x = pos[k]; x <= at; x++) {
                    struct sent* q = &sd[k].log[x]; int due = q->target < 0 ? before[i][q->svc_i] : q->target == i; int opt = toggle && i == g_tog_client && q->svc_i == g_tog_svc && q->target < 0;
                    if (x < at) VT_CHECK(!due || opt, "event-lost", "client %d did not receive an event of service %d it is subscribed to (%s)", i, ev_services[q->svc_i], q->target < 0 ? "broadcast" : "addressed to it");
                    else VT_CHECK(due || maybe, "event-misdelivered", "client %d received an event of service %d (%s) it must not receive", i, ev_services[q->svc_i], q->target < 0 ? "not subscribed" : "addressed to another client");
                }
                pos[k] = at + 1;
            }
            for (int k = 0; k < ns; k++) for (int x = pos[k]; x < sd[k].n; x++) {
                struct sent* q = &sd[k].log[x]; int due = q->target < 0 ? before[i][q->svc_i] : q->target == i; int opt = toggle && i == g_tog_client && q->svc_i == g_tog_svc && q->target < 0;
                VT_CHECK(!due || opt, "event-lost", "client %d did not receive an event of service %d it is subscribed to (%s)", i, ev_services[q->svc_i], q->target < 0 ? "broadcast" : "addressed to it");
            }
        }
        if (toggle) call_sync(E[g_tog_client].c, A_ECHO, 0, 0, &E[g_tog_client].conn);
        for (int k = 0; k < ns; k++) free(sd[k].log);
    }
    for (int i = 0; i < g_nc; i++) { gracht_client_shutdown(E[i].c); free(E[i].got); }
    srv_stop(&S);
    vt_stat("events_sent", ldl(&n_ev_sent)); vt_stat("events_received", ldl(&n_ev_recv)); vt_stat("targeted", ldl(&n_targeted)); vt_stat("subscription_changes", ldl(&n_subs)); vt_stat("concurrent_toggles", ldl(&n_toggles)); vt_stat("phases", ldl(&n_phases)); vt_stat("joins", ldl(&n_joins)); vt_stat("unreachable_clients", ldl(&n_deaf));
    vt_sample("events: %lld sent, %lld delivered to %d clients over %lld phases, %lld subscription changes", ldl(&n_ev_sent), ldl(&n_ev_recv), g_nc, ldl(&n_phases), ldl(&n_subs));
}
