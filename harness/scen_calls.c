#include "rt.h"
#include <sched.h>
/* C02: every answered call is completed exactly once with its own result. */
static struct srv S; static int g_threads, g_calls, g_window, g_maxn, g_pump, g_defer; static atomic_llong n_done, n_modes[8], n_inprogress, n_events, n_polls; static atomic_int g_noise_stop, g_finished, g_drain_stop;
struct cl { gracht_client_t* c; pthread_t pump; atomic_int pump_stop; atomic_int conn; };
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)svc; (void)ev; VT_CHECK(ok, "event-corrupt", "an event arrived with other values than sent (%u bytes)", r->n); inc(&n_events); }
static void* pump(void* p) {
    struct cl* c = p;
    while (!ld(&c->pump_stop)) if (gracht_client_wait_message(c->c, NULL, GRACHT_MESSAGE_BLOCK) && errno != ENOMEM) vt_viol("wait-failed", "pumping messages failed on a live connection (errno %d)", errno);
    return 0;
}
static void collect_must(struct cl* c, struct call* k, int* conn) {
    int st = call_collect(c->c, k, conn);
    VT_CHECK(st == GRACHT_MESSAGE_COMPLETED, "wait-early", "a wait returned success but the awaited call's status is %d (errno %d)", st, errno);
    inc(&n_done);
}
static void* caller(void* p) {
    struct cl* c = p; int left = g_calls, conn = -1;
    while (left > 0) {
        int w = 1 + (int)vt_below((uint32_t)g_window); if (w > left) w = left; left -= w;
        struct call k[16]; struct gracht_message_context* cx[16]; int mode = (int)vt_below(g_pump ? 6 : 4);
        for (int i = 0; i < w; i++) {
            int act = (int)vt_below(100) < g_defer ? A_DEFER : A_ECHO;
            uint32_t n = vt_rand() & 3 ? vt_below(64) : vt_below((uint32_t)g_maxn), rn = vt_rand() & 3 ? vt_below(64) : vt_below((uint32_t)g_maxn);
            if (call_start(c->c, &k[i], act, n, rn, (int)vt_below(3))) vt_viol("call-failed", "a call could not be sent on a live connection (errno %d)", errno);
            if ((vt_rand() & 7) == 0) vt_usleep(vt_below(100));
        }
        inc(&n_modes[mode]);
        /* asking early must not lose anything */
        for (int i = 0; i < w; i++) if ((vt_rand() & 3) == 0) {
            int st = call_collect(c->c, &k[i], &conn);
            VT_CHECK(st == GRACHT_MESSAGE_INPROGRESS || st == GRACHT_MESSAGE_COMPLETED, "status", "the status of a pending call is %d (errno %d)", st, errno);
            if (st == GRACHT_MESSAGE_INPROGRESS) inc(&n_inprogress); else inc(&n_done);
        }
        int rem[16], nr = 0; for (int i = 0; i < w; i++) if (!k[i].done) rem[nr++] = i;
        for (int i = nr - 1; i > 0; i--) { int j = (int)vt_below((uint32_t)i + 1), t = rem[i]; rem[i] = rem[j]; rem[j] = t; }
        if (!nr) continue;
        switch (mode) {
        case 0:
            for (int i = 0; i < nr; i++) { if (gracht_client_wait_message(c->c, &k[rem[i]].ctx, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting for a call failed on a live connection (errno %d)", errno); collect_must(c, &k[rem[i]], &conn); }
            break;
        case 1: case 4:
            for (int i = 0; i < nr; i++) cx[i] = &k[rem[i]].ctx;
            if (gracht_client_await_multiple(c->c, cx, nr, GRACHT_AWAIT_ALL | (mode == 4 ? GRACHT_AWAIT_ASYNC : 0))) vt_viol("wait-failed", "awaiting all calls failed on a live connection (errno %d)", errno);
            for (int i = 0; i < nr; i++) collect_must(c, &k[rem[i]], &conn);
            break;
        case 2: case 5:
            while (nr) {
                for (int i = 0; i < nr; i++) cx[i] = &k[rem[i]].ctx;
                if (gracht_client_await_multiple(c->c, cx, nr, GRACHT_AWAIT_ANY | (mode == 5 ? GRACHT_AWAIT_ASYNC : 0))) vt_viol("wait-failed", "awaiting any call failed on a live connection (errno %d)", errno);
                int m = 0, got = 0;
                for (int i = 0; i < nr; i++) { int st = call_collect(c->c, &k[rem[i]], &conn); if (st == GRACHT_MESSAGE_COMPLETED) { got++; inc(&n_done); } else { VT_CHECK(st == GRACHT_MESSAGE_INPROGRESS, "status", "the status of a pending call is %d (errno %d)", st, errno); rem[m++] = rem[i]; } }
                VT_CHECK(got, "wait-early", "awaiting any of %d calls returned success but none is complete", nr);
                nr = m;
            }
            break;
        case 3:
            while (nr) {
                inc(&n_polls);
                if (gracht_client_wait_message(c->c, NULL, 0)) { VT_CHECK(errno == EAGAIN || errno == EBUSY || errno == ENODATA || errno == ENOMEM, "poll", "polling a live connection failed with errno %d", errno); if (vt_rand() & 1) sched_yield(); else vt_usleep(20); }
                int m = 0;
                for (int i = 0; i < nr; i++) { int st = call_collect(c->c, &k[rem[i]], &conn); if (st == GRACHT_MESSAGE_COMPLETED) inc(&n_done); else { VT_CHECK(st == GRACHT_MESSAGE_INPROGRESS, "status", "the status of a pending call is %d (errno %d)", st, errno); rem[m++] = rem[i]; } }
                nr = m;
            }
            break;
        }
    }
    int prev = ld(&c->conn);
    VT_CHECK(prev == -1 || prev == conn, "identity", "two threads of one client were seen as different clients");
    atomic_store_explicit(&c->conn, conn, memory_order_relaxed);
    /* the rest of an event that was sent in part is sent for as long as it takes, so somebody has to read it */
    atomic_fetch_add(&g_finished, 1); vt_progress();
    while (!g_pump && !ld(&g_drain_stop)) { gracht_client_wait_message(c->c, NULL, 0); vt_usleep(200); }
    return 0;
}
static void* noise(void* a) { (void)a; while (vt_bg(&g_noise_stop)) { ev_broadcast(S.s, SVC, E_TICK, tk_new(K_NORMAL), vt_below(100), 0); vt_usleep(200 + vt_below(2000)); } return 0; }
void scen_calls(void) {
    int nc = (int)vt_arg("clients", 2); g_threads = (int)vt_arg("threads", 2); g_calls = (int)vt_arg("calls", 200); g_window = (int)vt_arg("window", 6); g_defer = (int)vt_arg("defer", 40);
    g_pump = (int)vt_arg("pump", 0); S.workers = (int)vt_arg("workers", 2); S.max_msg = (int)vt_arg("max", 0); S.stream = 1; S.selfdriven = (int)vt_arg("self", 0);
    int max = S.max_msg ? S.max_msg : 2048; g_maxn = max - HDR - REQ_FIXED + 1;
    ev_callback = on_event;
    srv_create(&S); if (gracht_server_register_protocol(S.s, &rt_server_protocol)) vt_viol("register", "register failed"); srv_start(&S);
    rt_responders_start((int)vt_arg("responders", 2));
    struct cl cs[8]; pthread_t th[8][8]; pthread_t nz; int noisy = (int)vt_arg("noise", 1);
    for (int i = 0; i < nc; i++) {
        cs[i].c = cl_connect_unix(S.path, max, max * (g_window * g_threads + 4) * 2); ev_register(cs[i].c); cs[i].pump_stop = 0; cs[i].conn = -1;
    }
    if (noisy) pthread_create(&nz, 0, noise, 0);
    for (int i = 0; i < nc; i++) {
        if (g_pump) pthread_create(&cs[i].pump, 0, pump, &cs[i]);
        for (int t = 0; t < g_threads; t++) pthread_create(&th[i][t], 0, caller, &cs[i]);
    }
    while (ld(&g_finished) < nc * g_threads) vt_usleep(500);
    if (noisy) { atomic_store(&g_noise_stop, 1); pthread_join(nz, 0); }
    atomic_store(&g_drain_stop, 1);
    for (int i = 0; i < nc; i++) for (int t = 0; t < g_threads; t++) pthread_join(th[i][t], 0);
    for (int i = 0; i < nc; i++) {
        if (g_pump) { atomic_store_explicit(&cs[i].pump_stop, 1, memory_order_relaxed); cl_async(cs[i].c, SVC, A_FIRE, tk_new(K_NORMAL), ARG(0, 0), 0); pthread_join(cs[i].pump, 0); }
        for (int j = 0; j < i; j++) VT_CHECK(cs[i].conn != cs[j].conn, "identity", "two clients share one identity");
    }
    long long want = (long long)nc * g_threads * g_calls;
    VT_CHECK(ldl(&n_done) == want, "lost", "%lld calls completed of %lld", ldl(&n_done), want);
    rt_responders_stop();
    for (int i = 0; i < nc; i++) gracht_client_shutdown(cs[i].c);
    srv_stop(&S);
    vt_stat("calls_completed", ldl(&n_done)); vt_stat("deferred", ldl(&rt_deferred)); vt_stat("asked_in_progress", ldl(&n_inprogress)); vt_stat("events_seen", ldl(&n_events)); vt_stat("polls", ldl(&n_polls));
    for (int i = 0; i < 6; i++) { char b[32]; snprintf(b, 32, "waitmode_%d", i); vt_stat(b, ldl(&n_modes[i])); }
    vt_sample("calls: %d clients x %d threads x %d calls, workers %d, %lld deferred, %lld asked while in progress", nc, g_threads, g_calls, S.workers, ldl(&rt_deferred), ldl(&n_inprogress));
}
