#include "rt.h"
/* C02/C05/C16: calls that stay in progress, or stay uncollected, while very many other messages pass, and very many calls in progress at once. */
static struct srv S; static atomic_llong n_between, n_held, n_peak, n_events, n_bad;
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)svc; (void)ev; (void)r; VT_CHECK(ok, "event-corrupt", "an event arrived with other values than sent"); inc(&n_events); }
static void shuffle(int* o, int n) { for (int i = 0; i < n; i++) o[i] = i; for (int i = n - 1; i > 0; i--) { int j = (int)vt_below((uint32_t)i + 1), t = o[i]; o[i] = o[j]; o[j] = t; } }
static void bad_start(gracht_client_t* c, struct gracht_message_context* x) { if (cl_call(c, x, (uint8_t)(vt_rand() & 1 ? SVC : 99), 150, tk_new(K_FORBIDDEN), 0, vt_below(60))) vt_viol("call-failed", "a call could not be sent (errno %d)", errno); inc(&n_bad); }
static void bad_wait(gracht_client_t* c, struct gracht_message_context* x) { VT_CHECK(!gracht_client_wait_message(c, x, GRACHT_MESSAGE_BLOCK), "wait-failed", "waiting for a call nobody supports failed (errno %d)", errno); }
static void bad_collect(gracht_client_t* c, struct gracht_message_context* x) { uint64_t t; uint32_t a, n; int ok, st; errno = 0; st = cl_result(c, x, &t, &a, &n, &ok); VT_CHECK(st == GRACHT_MESSAGE_ERROR && errno != ENOENT, "unsupported-not-failed", "a call nobody supports has status %d after %lld other messages", st, ldl(&n_between)); }
void scen_span(void) {
    S.workers = (int)vt_arg("workers", 0); S.stream = 1; int span = (int)vt_arg("span", 70000), many = (int)vt_arg("many", 2000), held = (int)vt_arg("held", 5), conn = -1;
    srv_create(&S); gracht_server_register_protocol(S.s, &rt_server_protocol); srv_start(&S); rt_responders_start(2); ev_callback = on_event;
    gracht_client_t* c = cl_connect_unix(S.path, 0, 4 << 20); ev_register(c);
    if (span) {
        struct call h[16], u[16]; struct gracht_message_context e[16]; int gap = 1 + (int)vt_below(40);
        rt_hold(1);
        for (int i = 0; i < held; i++) {
            VT_CHECK(!call_start(c, &h[i], A_DEFER, vt_below(100), vt_below(200), 0), "call-failed", "a call could not be sent (errno %d)", errno); inc(&n_held);
            VT_CHECK(!call_start(c, &u[i], A_ECHO, vt_below(100), vt_below(200), 0), "call-failed", "a call could not be sent (errno %d)", errno);
            VT_CHECK(!gracht_client_wait_message(c, &u[i].ctx, GRACHT_MESSAGE_BLOCK), "wait-failed", "waiting for a call's response failed (errno %d)", errno);
            bad_start(c, &e[i]); bad_wait(c, &e[i]);
            for (int k = 0; k < gap; k++) call_sync(c, A_ECHO, 1, 1, &conn);
        }
        for (int i = 0; i < span; i++) {
            if (i % 64 == 0) { call_sync(c, A_ECHO, vt_below(20), vt_below(20), &conn); vt_trace((uint64_t)i); }
            else if (i % 1009 == 1) { if (cl_async(c, SVC, A_FIRE, tk_new(0), ARG(0, 9), 1)) vt_viol("call-failed", "a message could not be sent (errno %d)", errno); }
            else if (cl_async(c, SVC, A_NOTIFY, tk_new(0), 0, 0)) vt_viol("call-failed", "a message could not be sent (errno %d)", errno);
            inc(&n_between);
            if (i % 512 == 7) { struct gracht_message_context x; bad_start(c, &x); bad_wait(c, &x); bad_collect(c, &x); }
            if (i % 16384 == 9) { uint64_t t; uint32_t a, n; int ok, k = (int)vt_below((uint32_t)held), st = cl_result(c, &h[k].ctx, &t, &a, &n, &ok); VT_CHECK(st == GRACHT_MESSAGE_INPROGRESS, st == GRACHT_MESSAGE_COMPLETED ? "wrong-response" : "call-lost", "a call that has not been answered has status %d after %lld other messages", st, ldl(&n_between)); }
        }
        call_sync(c, A_ECHO, 1, 1, &conn); rt_hold(0);
        int o[16]; shuffle(o, held);
        for (int i = 0; i < held; i++) {
            struct call* k = &h[o[i]]; VT_CHECK(!gracht_client_wait_message(c, &k->ctx, GRACHT_MESSAGE_BLOCK), "wait-failed", "waiting for a call that was in progress during %lld messages failed (errno %d)", ldl(&n_between), errno);
            VT_CHECK(call_collect(c, k, &conn) == GRACHT_MESSAGE_COMPLETED, "wait-early", "waiting for a call returned success but it is not completed");
            k = &u[o[i]]; VT_CHECK(call_collect(c, k, &conn) == GRACHT_MESSAGE_COMPLETED, "call-lost", "a response that was received before %lld other messages is gone", ldl(&n_between));
            bad_collect(c, &e[o[i]]);
        }
    }
    if (many) {
        struct call* k = calloc((size_t)many, sizeof *k); int* o = malloc(sizeof *o * (size_t)many);
        rt_hold(1);
        for (int i = 0; i < many; i++) { VT_CHECK(!call_start(c, &k[i], vt_below(8) ? A_DEFER : A_ECHO, vt_below(50), vt_below(100), 0), "call-failed", "call %d could not be sent while %d are in progress (errno %d)", i, i, errno); if (!(i & 15)) while (gracht_client_wait_message(c, NULL, 0) == 0) { }   /* answers that nobody reads would stall the server */ vt_trace(k[i].token); }
        atomic_store(&n_peak, many); rt_hold(0); shuffle(o, many);
        for (int i = 0; i < many; i++) {
            struct call* x = &k[o[i]]; VT_CHECK(!gracht_client_wait_message(c, &x->ctx, GRACHT_MESSAGE_BLOCK), "wait-failed", "waiting for one of %d calls failed (errno %d)", many, errno);
            VT_CHECK(call_collect(c, x, &conn) == GRACHT_MESSAGE_COMPLETED, "wait-early", "waiting for a call returned success but it is not completed");
        }
        free(k); free(o);
    }
    gracht_client_shutdown(c); rt_responders_stop(); srv_stop(&S);
    vt_stat("messages_spanned", ldl(&n_between)); vt_stat("held_calls", ldl(&n_held)); vt_stat("calls_in_progress", ldl(&n_peak)); vt_stat("unsupported_calls", ldl(&n_bad)); vt_stat("events_seen", ldl(&n_events));
    vt_sample("span: %lld calls in progress while %lld other messages passed, then %d calls in progress at once", ldl(&n_held), ldl(&n_between), many);
}
