#include "rt.h"
/* C16: any mix of operations, for long: nothing accumulates, capacity stays available. */
extern size_t __sanitizer_get_current_allocated_bytes(void);
static struct srv S; static atomic_llong n_conns, n_disc, n_made, n_ops[10], n_events, n_total; static int g_ops, g_max; static atomic_int g_go, g_donecycle, g_end; static int g_conc;
static void on_conn(gracht_conn_t c) { (void)c; inc(&n_conns); app_errno(); } static void on_disc(gracht_conn_t c) { (void)c; inc(&n_disc); app_errno(); }
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)svc; (void)ev; (void)r; VT_CHECK(ok, "event-corrupt", "an event arrived with other values than sent"); inc(&n_events); }
static gracht_client_t* mk(void) { gracht_client_t* c = cl_connect_unix(S.path, g_max, g_max * 40); inc(&n_made); ev_register(c); return c; }
static void bad_call(gracht_client_t* c) {
    struct gracht_message_context x; uint64_t t; uint32_t a, n; int ok; if (cl_call(c, &x, (uint8_t)(vt_rand() & 1 ? SVC : 99), 150, tk_new(K_FORBIDDEN), 0, vt_below(60))) vt_viol("call-failed", "send failed %d", errno);
    if (gracht_client_wait_message(c, &x, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting failed (errno %d)", errno);
    int st = cl_result(c, &x, &t, &a, &n, &ok); VT_CHECK(st == GRACHT_MESSAGE_ERROR, "unsupported-not-failed", "a call nobody supports has status %d", st);
}
static void rawclient(void) {
    int fd = raw_connect_unix(S.path); if (fd < 0) vt_viol("connect", "the server does not accept connections any more (errno %d)", errno); inc(&n_made); uint8_t b[8192]; int k = (int)vt_below(4);
    for (int j = 0; j < k; j++) { uint32_t l = raw_msg(b, (uint32_t)j, SVC, vt_below(3) ? A_DEFER : A_NOTIFY, MESSAGE_FLAG_SYNC, tk_new(0), ARG(vt_below(2), vt_below(50)), vt_below((uint32_t)g_max - 40)); if (raw_write(fd, b, l)) break; }
    switch (vt_below(4)) { case 0: { uint32_t l = raw_msg(b, 0, SVC, A_NOTIFY, 1, tk_new(K_FORBIDDEN), 0, 50); raw_write(fd, b, 1 + vt_below(l - 1)); break; } case 1: { uint8_t bad[HDR] = { 0 }; uint32_t l = vt_rand() & 1 ? vt_below(HDR) : (uint32_t)vt_rand() | 0x100000; memcpy(bad + 4, &l, 4); bad[8] = SVC; bad[9] = A_NOTIFY; raw_write(fd, bad, HDR); break; } default: break; }
    close(fd);
}
static void one(gracht_client_t** pc, int* conn) {
    gracht_client_t* c = *pc; uint32_t lim = (uint32_t)g_max - HDR - REQ_FIXED + 1; int k = (int)vt_below(10); inc(&n_ops[k]); inc(&n_total);
    switch (k) {
    case 0: call_sync(c, A_ECHO, vt_below(lim), vt_below(lim), conn); break;
    case 1: call_sync(c, A_DEFER, vt_below(lim), vt_below(lim), conn); break;
    case 2: if (cl_async(c, SVC, A_NOTIFY, tk_new(0), ARG(0, 0), vt_below(lim))) vt_viol("call-failed", "send failed %d", errno); break;
    case 3: bad_call(c); break;
    case 4: if (cl_async(c, (uint8_t)(vt_rand() & 1 ? SVC : 99), 151, tk_new(K_FORBIDDEN), 0, 10)) vt_viol("call-failed", "send failed %d", errno); break;
    case 5: ev_broadcast(S.s, ev_services[vt_below(NSVC)], E_TICK, tk_new(0), vt_below(lim), vt_rand() & 1 ? GRACHT_MESSAGE_BLOCK : 0); gracht_client_wait_message(c, NULL, 0); break;
    case 6: if (cl_async(c, SVC, A_FIRE, tk_new(0), ARG(0, vt_below(lim)), 4)) vt_viol("call-failed", "send failed %d", errno); break;
    case 7: { gracht_client_shutdown(c); *pc = mk(); *conn = -1; break; }
    case 8: { struct call w[5]; struct gracht_message_context* cx[5]; int n = 1 + (int)vt_below(5); for (int i = 0; i < n; i++) { if (call_start(c, &w[i], vt_rand() & 1 ? A_ECHO : A_DEFER, vt_below(60), vt_below(60), 0)) vt_viol("call-failed", "send failed %d", errno); cx[i] = &w[i].ctx; }
        if (gracht_client_await_multiple(c, cx, n, GRACHT_AWAIT_ALL)) vt_viol("wait-failed", "awaiting failed (errno %d)", errno); for (int i = 0; i < n; i++) { int st = call_collect(c, &w[i], conn); VT_CHECK(st == GRACHT_MESSAGE_COMPLETED, "wait-early", "status %d", st); } break; }
    case 9: if (vt_rand() & 1) rawclient(); else { cl_subscribe(c, ev_services[vt_below(NSVC)], (int)(vt_rand() & 1)); gracht_client_t* e = cl_create_unix(S.path, g_max, g_max * 40); if (vt_rand() & 1) ev_register(e); gracht_client_shutdown(e); } break;
    }
}
static void* client_main(void* a) {
    (void)a; gracht_client_t* c = 0; int conn = -1, cycle = 0;
    for (;;) {
        while (ld(&g_go) == cycle && !atomic_load(&g_end)) vt_usleep(100); if (atomic_load(&g_end)) break; cycle++;
        if (!c) { c = mk(); conn = -1; } for (int i = 0; i < g_ops; i++) one(&c, &conn);
        call_sync(c, A_ECHO, 0, 0, &conn); if (cycle % 5 == 0 || (vt_rand() & 1)) { gracht_client_shutdown(c); c = 0; }
        if (c) { int s; do s = gracht_client_wait_message(c, NULL, 0); while (!s); }
        atomic_fetch_add(&g_donecycle, 1); vt_progress();
    }
    if (c) gracht_client_shutdown(c); return 0;
}
static int cycle_done(void* a) { return ld(&g_donecycle) >= *(int*)a; }
static int quiet(void* a) { return !rt_pending() && ldl(&n_conns) == ldl(&n_made) && (!*(int*)a || ldl(&n_disc) == ldl(&n_conns)); }
void scen_soak(void) {
    S.workers = (int)vt_arg("workers", 2); S.stream = 1; g_max = S.max_msg = (int)vt_arg("max", 256); S.connected = on_conn; S.disconnected = on_disc; int cycles = (int)vt_arg("cycles", 30); g_ops = (int)vt_arg("ops", 60); g_conc = (int)vt_arg("clients", 3); ev_callback = on_event;
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(2);
    pthread_t t[8]; for (int i = 0; i < g_conc; i++) pthread_create(&t[i], 0, client_main, 0);
    size_t base = 0, last = 0; int warm = 10, fdbase = 0, fds = 0; long long opsbase = 0;
    for (int c = 1; c <= cycles; c++) {
        int want = c * g_conc; atomic_store(&g_go, c); vt_settle(cycle_done, &want); if (ld(&g_donecycle) < want) vt_viol("hang", "after %lld operations the clients do not finish any more", ldl(&n_total));
        int all = c % 5 == 0; if (!vt_settle(quiet, &all)) vt_viol("announce", "%lld connections made, %lld connects and %lld disconnects announced", ldl(&n_made), ldl(&n_conns), ldl(&n_disc));
        if (!all) continue; vt_msleep(40); /* nobody is connected: everything acquired for an operation has been returned */
        last = __sanitizer_get_current_allocated_bytes(); fds = vt_count_fds(); if (c <= warm) { base = last; fdbase = fds; opsbase = ldl(&n_total); } vt_progress();
        if (c > warm && last > base + (size_t)vt_arg("slack", 16 * 1024)) { vt_msleep(500); last = __sanitizer_get_current_allocated_bytes(); } /* give a late release every chance */
    }
    VT_CHECK(last <= base + (size_t)vt_arg("slack", 16 * 1024), "accumulates", "%zu bytes are held at a quiescent point, %zu were %lld operations earlier: memory grows with the operations performed", last, base, ldl(&n_total) - opsbase);
    VT_CHECK(fds <= fdbase + 1, "accumulates", "%d descriptors are open at a quiescent point, %d were %lld operations earlier", fds, fdbase, ldl(&n_total) - opsbase);
    atomic_store(&g_end, 1); for (int i = 0; i < g_conc; i++) pthread_join(t[i], 0);
    /* receive capacity: more messages than the server can hold at once still pass, largest size */
    { gracht_client_t* c = mk(); int conn = -1; uint32_t lim = (uint32_t)g_max - HDR - REQ_FIXED; for (int i = 0; i < 40 + S.workers * 40; i++) if (cl_async(c, SVC, A_NOTIFY, tk_new(0), ARG(1, 0), lim)) vt_viol("call-failed", "send failed %d", errno); call_sync(c, A_ECHO, lim, lim, &conn); gracht_client_shutdown(c); }
    rt_responders_stop(); srv_stop(&S);
    vt_stat("operations", ldl(&n_total)); vt_stat("cycles", cycles); vt_stat("connections", ldl(&n_made)); vt_stat("events_seen", ldl(&n_events)); vt_stat("handled", ldl(&rt_handled)); vt_stat("bytes_warm", (long long)base); vt_stat("bytes_end", (long long)last);
    for (int i = 0; i < 10; i++) { char b[32]; snprintf(b, 32, "op_%d", i); vt_stat(b, ldl(&n_ops[i])); }
    vt_sample("soak: %lld operations over %d cycles, %lld connections, %zu bytes held after warm-up and %zu at the end", ldl(&n_total), cycles, ldl(&n_made), base, last);
}
