#include "rt.h"
/* C06: unsupported calls fail for their caller only; (un)registration takes effect for later requests. */
static struct srv S; static atomic_llong n_bad, n_good, n_reg, n_dyn_ok, n_dyn_fail, n_ignored, n_events, n_async_bad;
#define DYN 40
static atomic_llong dyn_runs[2];
static void dyn_respond(struct gracht_message* m, gracht_buffer_t* b, int which) {
    struct req r; get_req(b, &r); inc(&dyn_runs[which]); if (!tk_valid(r.token)) vt_viol("request-corrupt", "a dynamically registered handler got a request nobody sent");
    if (atomic_fetch_add_explicit(&tk_exec[tk_idx(r.token)], 1, memory_order_relaxed)) vt_viol("executed-twice", "one request ran twice");
    gracht_buffer_t o; if (gracht_server_get_buffer(m->server, &o)) return; put_hdr(&o, DYN, 1, MESSAGE_FLAG_RESPONSE); put_req(&o, r.token ^ RESP, (uint32_t)which, 5); gracht_server_respond(m, &o);
}
static void dyn_a(struct gracht_message* m, gracht_buffer_t* b) { dyn_respond(m, b, 0); }
static void dyn_b(struct gracht_message* m, gracht_buffer_t* b) { dyn_respond(m, b, 1); }
static gracht_protocol_function_t fa[] = { { 1, dyn_a }, { 200, dyn_a } }, fb[] = { { 1, dyn_b } };
VT_TABLE(fa, 0) VT_TABLE(fb, 0)
static gracht_protocol_t pa = GRACHT_PROTOCOL_INIT(DYN, "dyn", 2, fa), pb = GRACHT_PROTOCOL_INIT(DYN, "dyn", 1, fb);
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)svc; (void)ev; (void)r; VT_CHECK(ok, "event-corrupt", "event corrupt"); inc(&n_events); }
struct bad { struct gracht_message_context ctx; uint64_t token; };
static void pick_bad(uint8_t* sid, uint8_t* aid) {
    static const uint8_t used[] = { A_ECHO, A_DEFER, A_NOTIFY, A_FIRE, A_SILENT, A_NOTIFY2, A_BIG };
    for (;;) {
        *sid = (uint8_t)vt_rand(); *aid = (uint8_t)vt_rand(); if ((vt_rand() & 3) == 0) *sid = SVC; if (vt_below(8) == 0) { *sid = 0; *aid = (uint8_t)(2 + vt_below(250)); } if (vt_below(8) == 0) *aid = A_ECHO;
        if (*sid == DYN) continue; if (*sid == 0 && *aid < 2) continue;
        int hit = 0; if (*sid == SVC) for (unsigned i = 0; i < sizeof used; i++) if (used[i] == *aid) hit = 1;
        if (!hit) return;
    }
}
static int g_rounds;
static void* client_main(void* p) {
    gracht_client_t* c = cl_connect_unix(S.path, 2048, 512 * 1024); int conn = -1; (void)p; ev_register(c);
    for (int r = 0; r < g_rounds; r++) {
        struct call g[8]; struct bad b[8]; int kind[16], ng = 0, nb = 0, n = 1 + (int)vt_below(8); struct gracht_message_context* cx[16]; int nx = 0;
        for (int i = 0; i < n; i++) {
            uint8_t sid, aid;
            switch (vt_below(4)) {
            case 0: case 1:
                pick_bad(&sid, &aid); b[nb].token = tk_new(K_FORBIDDEN); if (cl_call(c, &b[nb].ctx, sid, aid, b[nb].token, 0, vt_below(300))) vt_viol("call-failed", "send failed %d", errno);
                kind[nx] = -(nb + 1); cx[nx++] = &b[nb].ctx; nb++; inc(&n_bad); break;
            case 2: pick_bad(&sid, &aid); if (cl_async(c, sid, aid, tk_new(K_FORBIDDEN), 0, vt_below(50))) vt_viol("call-failed", "send failed %d", errno); inc(&n_async_bad); break;
            default: if (call_start(c, &g[ng], vt_rand() & 1 ? A_ECHO : A_DEFER, vt_below(100), vt_below(100), (int)vt_below(3))) vt_viol("call-failed", "send failed %d", errno); kind[nx] = ng; cx[nx++] = &g[ng].ctx; ng++; inc(&n_good); break;
            }
        }
        if (vt_rand() & 1) { if (nx && gracht_client_await_multiple(c, cx, nx, GRACHT_AWAIT_ALL)) vt_viol("wait-failed", "awaiting failed on a live connection (errno %d)", errno); }
        else for (int i = 0; i < nx; i++) if (gracht_client_wait_message(c, cx[i], GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "waiting failed on a live connection (errno %d)", errno);
        for (int i = 0; i < nx; i++) {
            if (kind[i] >= 0) { int st = call_collect(c, &g[kind[i]], &conn); VT_CHECK(st == GRACHT_MESSAGE_COMPLETED, "good-call-failed", "a supported call has status %d next to an unsupported one", st); }
            else { struct bad* q = &b[-kind[i] - 1]; uint64_t t; uint32_t a, k; int ok; errno = 0; int st = cl_result(c, &q->ctx, &t, &a, &k, &ok);
                VT_CHECK(st == GRACHT_MESSAGE_ERROR && errno != ENOENT, "unsupported-not-failed", "a call nobody supports has status %d (errno %d)", st, errno);
                VT_CHECK(cl_result(c, &q->ctx, &t, &a, &k, &ok) == -1 && errno == ENOENT, "collected-twice", "a failed call could be collected twice"); vt_progress(); }
        }
    }
    if (p) *(gracht_client_t**)p = c; else gracht_client_shutdown(c);
    return 0;
}
/* (un)register, then call */
static void dynamic(gracht_client_t* c) {
    gracht_protocol_t* cur = 0;
    for (int r = 0; r < g_rounds; r++) {
        if (vt_rand() & 1) {
            gracht_protocol_t* p = vt_rand() & 1 ? &pa : &pb; int st = gracht_server_register_protocol(S.s, p); inc(&n_reg);
            if (cur) VT_CHECK(st == -1, "register-twice", "registering service %d twice was accepted", DYN); else { VT_CHECK(st == 0, "register", "registering service %d failed (errno %d)", DYN, errno); cur = p; }
        } else { gracht_server_unregister_protocol(S.s, vt_rand() & 1 ? &pa : &pb); cur = 0; inc(&n_reg); }
        int reps = 1 + (int)vt_below(3);
        for (int i = 0; i < reps; i++) {
            struct gracht_message_context x; int act = vt_below(3) == 0 ? 200 : 1, expect = cur == &pa || (cur == &pb && act == 1); uint64_t tok = tk_new(expect ? K_NORMAL : K_FORBIDDEN), t; uint32_t a, n; int ok;
            if (cl_call(c, &x, DYN, (uint8_t)act, tok, 0, 10)) vt_viol("call-failed", "send failed");
            if (gracht_client_wait_message(c, &x, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "wait failed %d", errno);
            errno = 0; int st = cl_result(c, &x, &t, &a, &n, &ok); vt_progress();
            if (expect) { inc(&n_dyn_ok); VT_CHECK(st == GRACHT_MESSAGE_COMPLETED && t == (tok ^ RESP) && ok, "register-no-effect", "a call to a registered service has status %d", st); VT_CHECK(a == (cur == &pb), "register-no-effect", "a replaced registration still runs the old handler"); }
            else { inc(&n_dyn_fail); VT_CHECK(st == GRACHT_MESSAGE_ERROR && errno != ENOENT, "unregister-no-effect", "a call to an unregistered service or function has status %d", st); VT_CHECK(!tk_ran(tok), "unregister-no-effect", "the handler of an unregistered service ran"); }
        }
    }
    gracht_server_unregister_protocol(S.s, &pa);
}
/* several threads (un)register at once while the last request of a batch is on its way: all of them must get through, whoever they had to wait for */
#define NREG 4
static atomic_llong n_batches; static pthread_barrier_t g_bar; static atomic_int g_left; static uint64_t g_last;
static gracht_protocol_function_t fr[] = { { 1, dyn_a } }; VT_TABLE(fr, 0)
static void* registrar(void* a) {
    gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)(41 + (long)a), "r", 1, fr);
    for (int r = 0; r < g_rounds; r++) {
        pthread_barrier_wait(&g_bar); for (uint32_t k = vt_below(400); k; k--) __asm__ volatile("");
        VT_CHECK(gracht_server_register_protocol(S.s, &p) == 0, "register", "registering service %d failed (errno %d)", p.id, errno); if (vt_rand() & 1) sched_yield();
        gracht_server_unregister_protocol(S.s, &p); inc(&n_batches); atomic_fetch_sub(&g_left, 1); vt_progress();
        pthread_barrier_wait(&g_bar);
    }
    return 0;
}
static int batch_ran(void* a) { (void)a; return atomic_load(&g_left) == 0 && tk_ran(g_last); }
static void registrars(void) {
    pthread_t th[NREG]; int conn = -1; gracht_client_t* c = cl_connect_unix(S.path, 2048, 64 * 1024); call_sync(c, A_ECHO, 0, 0, &conn); pthread_barrier_init(&g_bar, 0, NREG + 1);
    for (long i = 0; i < NREG; i++) pthread_create(&th[i], 0, registrar, (void*)i);
    for (int r = 0; r < g_rounds; r++) {
        int n = 1 + (int)vt_below(3); atomic_store(&g_left, NREG); for (int i = 0; i + 1 < n; i++) cl_async(c, SVC, A_NOTIFY, tk_new(0), 0, 10);
        g_last = tk_new(0); if (cl_async(c, SVC, A_NOTIFY, g_last, 0, 10)) vt_viol("call-failed", "send failed");
        pthread_barrier_wait(&g_bar); while (!batch_ran(0)) vt_usleep(100);   /* a registration that is stuck is found by the hang detector */
        pthread_barrier_wait(&g_bar);
    }
    for (int i = 0; i < NREG; i++) pthread_join(th[i], 0);
    pthread_barrier_destroy(&g_bar); gracht_client_shutdown(c);
}
void scen_unsupported(void) {
    S.workers = (int)vt_arg("workers", 2); S.stream = 1; g_rounds = (int)vt_arg("rounds", 100); int nc = (int)vt_arg("clients", 3); ev_callback = on_event;
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(1);
    pthread_t th[8]; gracht_client_t* keep = 0;
    for (int i = 0; i < nc; i++) pthread_create(&th[i], 0, client_main, i == 0 ? &keep : 0);
    gracht_client_t* d = cl_connect_unix(S.path, 2048, 64 * 1024); dynamic(d); gracht_client_shutdown(d);
    for (int i = 0; i < nc; i++) pthread_join(th[i], 0);
    registrars();
    /* events of services or functions the client does not know are ignored; the next one still arrives */
    int conn = -1; call_sync(keep, A_ECHO, 0, 0, &conn);
    for (int r = 0; r < 40; r++) {
        long long before = ldl(&n_events); static const uint8_t unk[] = { 2, 40, 77, 100, 255 };
        for (int i = 0; i < 4; i++) { ev_send(S.s, conn, vt_rand() & 1 ? unk[vt_below(5)] : SVC, (uint8_t)(100 + vt_below(100)), tk_new(0), vt_below(100), GRACHT_MESSAGE_BLOCK); inc(&n_ignored); }
        ev_send(S.s, conn, SVC, E_TICK, tk_new(0), vt_below(100), GRACHT_MESSAGE_BLOCK);
        while (ldl(&n_events) == before) if (gracht_client_wait_message(keep, NULL, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "an ignored event disturbed the client (errno %d)", errno);
        VT_CHECK(ldl(&n_events) == before + 1, "event-unknown", "an event of an unregistered service ran a handler"); call_sync(keep, A_ECHO, 3, 4, &conn);
    }
    gracht_client_shutdown(keep); rt_responders_stop(); srv_stop(&S);
    vt_stat("unsupported_calls", ldl(&n_bad)); vt_stat("unsupported_async", ldl(&n_async_bad)); vt_stat("supported_calls", ldl(&n_good)); vt_stat("registrations", ldl(&n_reg)); vt_stat("parallel_registrations", ldl(&n_batches)); vt_stat("dynamic_ok", ldl(&n_dyn_ok)); vt_stat("dynamic_refused", ldl(&n_dyn_fail)); vt_stat("ignored_events", ldl(&n_ignored));
    vt_sample("unsupported: %lld bad sync, %lld bad async, %lld good, %lld (un)registrations", ldl(&n_bad), ldl(&n_async_bad), ldl(&n_good), ldl(&n_reg));
}
