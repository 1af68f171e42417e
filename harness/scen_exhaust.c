#include "rt.h"
/* C02/C08/C16: receive memory that is full of uncollected responses refuses further messages, loses none, and is usable again once they are collected. */
static struct srv S; static atomic_llong n_rounds, n_full, n_calls, n_events, n_peak, n_maxpairs;
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)svc; (void)ev; (void)r; VT_CHECK(ok, "event-corrupt", "an event arrived with other values than sent"); inc(&n_events); }
#define N 64
static void round_(void) {
    int max = 128 + (int)vt_below(900), conn = -1, n = 10 + (int)vt_below(N - 10), fires = 0, left = n, held = 0; struct call k[N]; uint32_t lim = (uint32_t)max - HDR - REQ_FIXED; long long before = ldl(&n_events);
    gracht_client_t* c = cl_connect_unix(S.path, max, vt_rand() & 1 ? 0 : 1 + (int)vt_below((uint32_t)max * 6)); ev_register(c); inc(&n_rounds);
    for (int i = 0; i < n; i++) {
        if (call_start(c, &k[i], vt_rand() & 1 ? A_ECHO : A_DEFER, vt_below(60), vt_rand() & 3 ? lim - vt_below(lim < 40 ? lim : 40) : vt_below(lim), 0)) vt_viol("call-failed", "a call could not be sent (errno %d)", errno);
        inc(&n_calls); if (vt_below(4) == 0) { if (cl_async(c, SVC, A_FIRE, tk_new(0), ARG(0, vt_below(lim)), 1)) vt_viol("call-failed", "a message could not be sent (errno %d)", errno); fires++; }
    }
    int keep = (int)vt_below(4), style = (int)vt_below(3);
    while (left) {
        int i; do i = (int)vt_below((uint32_t)n); while (k[i].done);
        errno = 0; int any = style == 0 || (style == 1 && (vt_rand() & 1)), st = !any && vt_below(3) == 0 ? gracht_client_await(c, &k[i].ctx, vt_rand() & 1 ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY) : gracht_client_wait_message(c, any ? NULL : &k[i].ctx, any || vt_below(3) == 0 ? 0 : GRACHT_MESSAGE_BLOCK), e = errno; vt_progress();   /* everything may have been received already */
        if (st == 0) { if (++held > ldl(&n_peak)) atomic_store(&n_peak, held); if (vt_below(16) == 0 && call_collect(c, &k[i], &conn) == GRACHT_MESSAGE_COMPLETED) { left--; held--; } if (style == 2 || vt_below(4)) continue; }
        else if (e == EAGAIN || e == EBUSY) { vt_usleep(50); if (vt_below(8)) continue; st = 0; }
        else {
            VT_CHECK(e == ENOMEM, "wait-failed", "a wait failed (errno %d) although the connection is alive", e); inc(&n_full);
            for (int q = 0; q < keep; q++) { if (gracht_client_wait_message(c, NULL, 0) == 0) break; }
        }
        int got = 0, o = (int)vt_below((uint32_t)n);
        for (int q = 0; q < n; q++) { int j = (q + o) % n; if (!k[j].done && call_collect(c, &k[j], &conn) == GRACHT_MESSAGE_COMPLETED) { got++; left--; } }
        held = 0; VT_CHECK(got || st == 0, "receive-memory", "the receive memory is exhausted although no response is held");
    }
    while (ldl(&n_events) < before + fires) if (gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting for an event failed (errno %d)", errno);
    VT_CHECK(ldl(&n_events) == before + fires, "event-lost", "%lld events arrived instead of %d", ldl(&n_events) - before, fires);
    /* room for one message of the maximum size that is held, and one that is received, is always there */
    for (int i = 0; i < 4; i++) { struct call h; if (call_start(c, &h, A_ECHO, vt_below(lim + 1), lim, 0)) vt_viol("call-failed", "errno %d", errno); if (gracht_client_wait_message(c, &h.ctx, GRACHT_MESSAGE_BLOCK)) vt_viol("receive-memory", "a response of the maximum size (%d) can not be received by an idle client (errno %d)", max, errno);
        struct call g; if (call_start(c, &g, A_ECHO, vt_below(lim + 1), lim, 0)) vt_viol("call-failed", "errno %d", errno); if (gracht_client_wait_message(c, &g.ctx, GRACHT_MESSAGE_BLOCK)) vt_viol("receive-memory", "a response of the maximum size (%d) can not be received while another one is held (errno %d)", max, errno);
        VT_CHECK(call_collect(c, vt_rand() & 1 ? &h : &g, &conn) == GRACHT_MESSAGE_COMPLETED, "wait-early", "not completed"); call_sync(c, A_ECHO, lim, lim, &conn);
        VT_CHECK(call_collect(c, h.done ? &g : &h, &conn) == GRACHT_MESSAGE_COMPLETED, "wait-early", "not completed"); inc(&n_maxpairs); }
    gracht_client_shutdown(c);
}
void scen_exhaust(void) {
    S.workers = (int)vt_arg("workers", 2); S.stream = 1; S.selfdriven = (int)vt_arg("self", 0); ev_callback = on_event;
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(2);
    int n = (int)vt_arg("rounds", 40); for (int i = 0; i < n; i++) round_();
    rt_responders_stop(); srv_stop(&S);
    vt_stat("rounds", ldl(&n_rounds)); vt_stat("calls_completed", ldl(&n_calls)); vt_stat("memory_exhausted", ldl(&n_full)); vt_stat("events_received", ldl(&n_events)); vt_stat("largest_held_pairs", ldl(&n_maxpairs)); vt_stat("most_uncollected", ldl(&n_peak));
    vt_sample("exhaust: %lld calls, receive memory exhausted %lld times, %lld events", ldl(&n_calls), ldl(&n_full), ldl(&n_events));
}
