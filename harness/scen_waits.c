#include "rt.h"
/* C05: a scripted peer decides when each response arrives; waits must return exactly then. */
static int g_lfd; static char g_path[150];
enum { W_WAIT, W_ANY, W_ALL, W_ANY_ASYNC, W_ALL_ASYNC, W_WAITPOLL, W_KINDS };
#define MC 12
static struct call K[MC]; static atomic_int released[MC]; static atomic_int g_closed; static int g_m;
struct waiter { int kind, n, set[MC]; gracht_client_t* c; pthread_t th; atomic_int done; int result; int err; };
static atomic_llong n_rounds, n_waits[W_KINDS], n_junk, n_closed, n_fail, n_ok, n_responses, n_errors, n_multi;
static atomic_llong n_events;
static void on_event(gracht_client_t* c, int svc, int ev, struct req* r, int ok) { (void)c; (void)svc; (void)ev; (void)r; VT_CHECK(ok, "event-corrupt", "an event was corrupted"); inc(&n_events); }
static int rel_all(struct waiter* w) { for (int i = 0; i < w->n; i++) if (!atomic_load(&released[w->set[i]])) return 0; return 1; }
static int rel_any(struct waiter* w) { for (int i = 0; i < w->n; i++) if (atomic_load(&released[w->set[i]])) return 1; return 0; }
static void* wait_main(void* p) {
    struct waiter* w = p; struct gracht_message_context* cx[MC]; for (int i = 0; i < w->n; i++) cx[i] = &K[w->set[i]].ctx;
    int st; errno = 0;
    switch (w->kind) {
    case W_WAIT: st = gracht_client_wait_message(w->c, cx[0], GRACHT_MESSAGE_BLOCK); break;
    case W_WAITPOLL: do { st = gracht_client_wait_message(w->c, cx[0], 0); if (st && (errno == EAGAIN || errno == EBUSY)) vt_usleep(100); else break; } while (1); break;
    case W_ANY: st = gracht_client_await_multiple(w->c, cx, w->n, GRACHT_AWAIT_ANY); break;
    case W_ALL: st = w->n == 1 && (vt_rand() & 1) ? gracht_client_await(w->c, cx[0], GRACHT_AWAIT_ALL) : gracht_client_await_multiple(w->c, cx, w->n, GRACHT_AWAIT_ALL); break;
    case W_ANY_ASYNC: st = gracht_client_await_multiple(w->c, cx, w->n, GRACHT_AWAIT_ANY | GRACHT_AWAIT_ASYNC); break;
    default: st = gracht_client_await_multiple(w->c, cx, w->n, GRACHT_AWAIT_ALL | GRACHT_AWAIT_ASYNC); break;
    }
    w->err = errno;
    int any = rel_any(w), all = rel_all(w), closed = ld(&g_closed);
    if (st == 0) {
        VT_CHECK(w->kind == W_ANY || w->kind == W_ANY_ASYNC ? any : all, "wait-early", "a wait (kind %d) for %d calls returned success although the peer had not answered %s of them", w->kind, w->n, w->kind == W_ANY || w->kind == W_ANY_ASYNC ? "any" : "all");
        inc(&n_ok);
    } else { VT_CHECK(closed, "wait-failed", "a wait (kind %d) failed (errno %d) although the connection is alive", w->kind, w->err); inc(&n_fail); }
    w->result = st; atomic_store(&w->done, 1); vt_progress(); return 0;
}
static atomic_int g_pump_stop; 
static void* pump_main(void* p) { gracht_client_t* c = p; while (!atomic_load(&g_pump_stop)) { if (gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK)) { VT_CHECK(ld(&g_closed), "wait-failed", "pumping failed on a live connection (errno %d)", errno); break; } } return 0; }
static uint8_t g_buf[8192]; static int g_reading; /* somebody drains the socket all the time, so it can not fill up */
static void junk(int fd, uint32_t ids[], int sent_any, int answered[]) {
    uint32_t l; int style = (int)vt_below(4);
    inc(&n_junk);
    switch (vt_below(5)) {
    case 0: l = raw_msg(g_buf, 0, SVC, E_TICK, MESSAGE_FLAG_EVENT, tk_new(0), SVC, vt_below(50)); break;                 /* a registered event */
    case 1: l = raw_msg(g_buf, 0, 99, 3, MESSAGE_FLAG_EVENT, tk_new(0), 0, vt_below(50)); break;                         /* an event nobody registered */
    case 2: l = raw_msg(g_buf, 0x7f000000u + vt_below(1000), SVC, A_ECHO, MESSAGE_FLAG_RESPONSE, tk_new(0), 0, vt_below(50)); break; /* a response to nothing */
    case 3: { int i = (int)vt_below((uint32_t)g_m); if (!sent_any || !answered[i]) { l = raw_msg(g_buf, 0, SVC, E_TICK2, MESSAGE_FLAG_EVENT, tk_new(0), SVC, 0); break; }
              l = raw_msg(g_buf, ids[i], SVC, A_ECHO, MESSAGE_FLAG_RESPONSE, tk_new(0), 0, vt_below(50)); break; }        /* a second response */
    default: l = raw_msg(g_buf, 0, SVC, 77, MESSAGE_FLAG_EVENT, tk_new(0), SVC, 0); break;                                /* unknown event of a known service */
    }
    if (g_reading ? raw_write_cut(fd, g_buf, l, style) : raw_write_pieces(fd, g_buf, l, 2)) vt_internal("junk write");
}
/* threads that go on calling while the connection is lost */
static atomic_int g_gone; static atomic_llong n_late_calls, n_late_refused;
static void* late_main(void* p) {
    gracht_client_t* c = p; while (!ld(&g_closed)) vt_usleep(50);
    for (int i = 0; i < 12; i++) {
        struct gracht_message_context x; int gone = ld(&g_gone), st = cl_call(c, &x, SVC, A_ECHO, tk_new(0), 0, vt_below(40)); inc(&n_late_calls);
        VT_CHECK(!gone || st == -1, "send-on-lost", "a call on a lost connection reports success");
        for (int k = 0; k < 3; k++) { uint64_t t; uint32_t a, n; int ok, r; errno = 0; r = cl_result(c, &x, &t, &a, &n, &ok); VT_CHECK(r != GRACHT_MESSAGE_COMPLETED, "status", "a call the peer never saw is completed"); if (st) { inc(&n_late_refused); VT_CHECK(r == -1, "status", "a call that could not be sent has status %d", r); } }
        if (!st) VT_CHECK(gracht_client_wait_message(c, &x, GRACHT_MESSAGE_BLOCK) == -1, "wait-early", "a call on a lost connection completes");
    }
    vt_progress(); return 0;
}
static int all_done_cond(void* a) { struct waiter* w = a; for (; w->c; w++) if (!atomic_load(&w->done)) return 0; return 1; }
static void round_(void) {
    inc(&n_rounds);
    gracht_client_t* c = cl_create_unix(g_path, 2048, 256 * 1024); ev_register(c);
    if (gracht_client_connect(c)) vt_viol("connect", "connect failed (errno %d)", errno);
    int fd = accept(g_lfd, 0, 0); if (fd < 0) vt_internal("accept");
    uint32_t ids[MC]; int answered[MC] = { 0 }, iserr[MC] = { 0 }; uint64_t rtok[MC]; uint32_t rn[MC];
    g_m = 1 + (int)vt_below(MC); atomic_store(&g_closed, 0); atomic_store(&g_gone, 0); int lose = vt_below(3) == 0; pthread_t late[2]; int nlate = lose ? (int)vt_below(3) : 0;
    for (int i = 0; i < g_m; i++) {
        atomic_store(&released[i], 0); K[i].token = tk_new(0);
        if (cl_call(c, &K[i].ctx, SVC, A_ECHO, K[i].token, 0, vt_below(20))) vt_viol("call-failed", "send failed (errno %d)", errno);
        uint32_t l; if (raw_read_msg(fd, g_buf, sizeof g_buf, &l) != 1) vt_internal("read request"); memcpy(&ids[i], g_buf, 4);
        for (int j = 0; j < i; j++) VT_CHECK(ids[i] != ids[j], "id-reused", "two outstanding calls carry the same id %u", ids[i]);
    }
    struct waiter w[7]; memset(w, 0, sizeof w); int nw = 1 + (int)vt_below(5), async = 0; pthread_t pump;
    int mono = (int)vt_below(3) == 0 ? (int)vt_below(W_KINDS) : -1;
    for (int i = 0; i < nw; i++) {
        w[i].c = c; w[i].kind = mono >= 0 ? mono : (int)vt_below(W_KINDS); int one = w[i].kind == W_WAIT || w[i].kind == W_WAITPOLL; inc(&n_waits[w[i].kind]);
        for (int k = 0; k < g_m; k++) w[i].set[k] = k;
        for (int k = g_m - 1; k > 0; k--) { int j = (int)vt_below((uint32_t)k + 1), t = w[i].set[k]; w[i].set[k] = w[i].set[j]; w[i].set[j] = t; }
        w[i].n = one ? 1 : 1 + (int)vt_below((uint32_t)g_m); if (w[i].n > 1) inc(&n_multi);
        if (w[i].kind == W_ANY_ASYNC || w[i].kind == W_ALL_ASYNC) async = 1;
    }
    int pumping = async || vt_below(4) == 0; g_reading = pumping; atomic_store(&g_pump_stop, 0);
    int early = (int)(vt_rand() & 1);
    if (pumping) pthread_create(&pump, 0, pump_main, c);
    if (early) for (int i = 0; i < nw; i++) pthread_create(&w[i].th, 0, wait_main, &w[i]);
    for (int i = 0; i < nlate; i++) pthread_create(&late[i], 0, late_main, c);
    int order[MC]; for (int i = 0; i < g_m; i++) order[i] = i;
    for (int i = g_m - 1; i > 0; i--) { int j = (int)vt_below((uint32_t)i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
    int stop_at = lose ? (int)vt_below((uint32_t)g_m) : g_m; int started_at = early ? -1 : (int)vt_below((uint32_t)g_m + 1);
    for (int q = 0; q <= g_m; q++) {
        if (q == started_at) for (int i = 0; i < nw; i++) pthread_create(&w[i].th, 0, wait_main, &w[i]);
        if (q >= stop_at) { if (lose && !ld(&g_closed)) {
                if (started_at > q) { for (int i = 0; i < nw; i++) pthread_create(&w[i].th, 0, wait_main, &w[i]); started_at = -2; if (vt_rand() & 1) vt_usleep(500); }
                atomic_store(&g_closed, 1); if (vt_rand() & 1) { uint32_t l = raw_msg(g_buf, ids[0], SVC, A_ECHO, MESSAGE_FLAG_RESPONSE, 1, 0, 40); if (raw_write(fd, g_buf, 1 + vt_below(l - 1))) {} } close(fd); atomic_store(&g_gone, 1); inc(&n_closed); }
            if (lose || q == g_m) break; }
        if (vt_rand() & 1) for (int k = 0; k < 3; k++) junk(fd, ids, q > 0, answered);
        if ((vt_rand() & 3) == 0) vt_usleep(100 + vt_below(800));
        int i = order[q]; uint32_t l;
        atomic_store(&released[i], 1); answered[i] = 1; iserr[i] = vt_below(6) == 0;
        if (iserr[i]) { gracht_buffer_t b = { (char*)g_buf, 0 }; put_hdr(&b, 0, 2, MESSAGE_FLAG_EVENT); memcpy(&g_buf[b.index], &ids[i], 4); int32_t e = ENOENT; memcpy(&g_buf[b.index + 4], &e, 4); l = b.index + 8; memcpy(g_buf + 4, &l, 4); inc(&n_errors); }
        else { rtok[i] = tk_new(0); rn[i] = vt_below(1500); l = raw_msg(g_buf, ids[i], SVC, A_ECHO, MESSAGE_FLAG_RESPONSE, rtok[i], (uint32_t)i, rn[i]); inc(&n_responses); }
        if (g_reading ? raw_write_cut(fd, g_buf, l, (int)vt_below(4)) : raw_write_pieces(fd, g_buf, l, 3)) vt_internal("write");
        if ((vt_rand() & 3) == 0) vt_usleep(vt_below(300));
    }
    w[nw].c = 0; for (int i = 0; i < nlate; i++) pthread_join(late[i], 0);
    /* every wait has to return now: all responses were sent, or the connection is gone */
    if (!vt_settle(all_done_cond, w)) { int k = 0; while (atomic_load(&w[k].done)) k++; vt_viol("wait-stuck", "a wait (kind %d, %d calls) stays blocked although %s", w[k].kind, w[k].n, lose ? "the connection is lost" : "all responses have arrived"); }
    for (int i = 0; i < nw; i++) pthread_join(w[i].th, 0);
    if (pumping) {
        atomic_store(&g_pump_stop, 1);
        if (!lose) { uint32_t l = raw_msg(g_buf, 0, SVC, E_TICK, MESSAGE_FLAG_EVENT, tk_new(0), SVC, 0); if (raw_write(fd, g_buf, l)) vt_internal("w"); }
        pthread_join(pump, 0);
    }
    for (int i = 0; i < nw; i++) {
        int any = rel_any(&w[i]), all = rel_all(&w[i]), sat = w[i].kind == W_ANY || w[i].kind == W_ANY_ASYNC ? any : all;
        if (!sat) VT_CHECK(w[i].result == -1, "wait-early", "a wait reports success although its calls were never answered");
        else VT_CHECK(w[i].result == 0, "wait-failed", "a wait (kind %d) failed although all it waits for had been sent before the connection was closed", w[i].kind);
    }
    /* statuses */
    if (!lose) for (int i = 0; i < g_m; i++) {
        if (!pumping && gracht_client_wait_message(c, &K[i].ctx, GRACHT_MESSAGE_BLOCK)) vt_viol("wait-failed", "a late wait failed (errno %d)", errno);
        if (pumping && gracht_client_await(c, &K[order[i]].ctx, GRACHT_AWAIT_ALL)) vt_viol("wait-failed", "a late wait failed (errno %d)", errno);
    }
    if (!lose) for (int i = 0; i < g_m; i++) {
        uint64_t t; uint32_t a, n; int ok; errno = 0; int st = cl_result(c, &K[i].ctx, &t, &a, &n, &ok);
        if (iserr[i]) VT_CHECK(st == GRACHT_MESSAGE_ERROR && errno != ENOENT, "error-lost", "a call the server reported as failed has status %d", st);
        else { VT_CHECK(st == GRACHT_MESSAGE_COMPLETED, "status", "an answered call has status %d", st); VT_CHECK(ok && t == rtok[i] && a == (uint32_t)i && n == rn[i], "wrong-response", "a call holds a response that is not its own (or a later duplicate)"); }
    }
    if (lose) {
        int left = 0; while (gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK) == 0) VT_CHECK(left++ < 1000, "wait-early", "waiting on a lost connection keeps reporting success");   /* what had arrived before */
        VT_CHECK(gracht_client_wait_message(c, NULL, GRACHT_MESSAGE_BLOCK) == -1, "wait-early", "waiting on a lost connection reports success");
        VT_CHECK(gracht_client_wait_message(c, NULL, 0) == -1, "wait-early", "polling a lost connection reports success");
        for (int i = 0; i < g_m; i++) if (!released[i]) { VT_CHECK(gracht_client_wait_message(c, &K[i].ctx, GRACHT_MESSAGE_BLOCK) == -1, "wait-early", "waiting for an unanswered call on a lost connection reports success"); VT_CHECK(gracht_client_await(c, &K[i].ctx, GRACHT_AWAIT_ALL | (i & 1 ? GRACHT_AWAIT_ASYNC : 0)) == -1, "wait-early", "awaiting an unanswered call on a lost connection reports success"); }
    } else close(fd);
    gracht_client_shutdown(c); vt_progress();
}
void scen_waits(void) {
    ev_callback = on_event; snprintf(g_path, sizeof g_path, "%s/w", vt_scratch()); g_lfd = raw_listen_unix(g_path);
    int n = (int)vt_arg("rounds", 60); for (int i = 0; i < n; i++) round_();
    close(g_lfd);
    vt_stat("rounds", ldl(&n_rounds)); vt_stat("waits_succeeded", ldl(&n_ok)); vt_stat("waits_failed_on_loss", ldl(&n_fail)); vt_stat("junk_messages", ldl(&n_junk)); vt_stat("connections_lost", ldl(&n_closed)); vt_stat("responses", ldl(&n_responses)); vt_stat("error_events", ldl(&n_errors)); vt_stat("late_calls", ldl(&n_late_calls)); vt_stat("multi_call_waits", ldl(&n_multi));
    for (int i = 0; i < W_KINDS; i++) { char b[32]; snprintf(b, 32, "wait_kind_%d", i); vt_stat(b, ldl(&n_waits[i])); }
    vt_sample("waits: %lld rounds, %lld waits succeeded, %lld failed after %lld lost connections, %lld junk messages", ldl(&n_rounds), ldl(&n_ok), ldl(&n_fail), ldl(&n_closed), ldl(&n_junk));
}
